"""Abstract interpreter over the exported syntax trees.

Integers are affine expressions over symbols; a state carries the set of symbol
valuations (Presburger set, libisl) for which its program point is reached;
loops become iteration symbols; arrays are only logged as accesses with index
expressions, iteration domain and position in the execution order."""
import json
from fractions import Fraction
from isl import Set, TRUE, FALSE, parse, IslError
from dom import *

W64 = 1 << 64
NDIMMAX = 1 << 31


class Stop(Exception):
    """analysis of this function instance given up"""


class State:
    __slots__ = ("fr", "st", "ctx", "this")

    def __init__(s, fr, st, ctx, this=None):
        s.fr = fr
        s.st = st
        s.ctx = ctx
        s.this = this

    def fork(s, ctx=None):
        return State(dict(s.fr), dict(s.st), s.ctx if ctx is None else ctx, s.this)


class Flow:
    __slots__ = ("n", "b", "c", "r")

    def __init__(s, n=None):
        s.n = n
        s.b = []
        s.c = []
        s.r = []


class Split(Exception):
    def __init__(s, sets):
        s.sets = sets


class Ev:
    __slots__ = ("k", "root", "ix", "ctx", "time", "loc", "val", "view", "op", "fn", "x", "loops", "stack", "no", "exact", "used")

    def __repr__(s):
        return "%s %s[%s] %s @%s %s" % (s.k, s.root, s.ix, s.op or "", s.loc, s.val if s.val is not None else "")


class Prog:
    def __init__(s, path):
        s.d = json.load(open(path))
        s.fns = s.d["fns"]
        s.types = s.d["types"]
        s.files = s.d["files"]
        s.byname = {}
        for f in s.fns:
            if f:
                s.byname.setdefault(f["n"], []).append(f)
        s._mods = {}
        s._brk = {}

    def T(s, t):
        return s.types[t]

    def base(s, t):
        """strip references"""
        ty = s.types[t]
        while ty["k"] in ("ref", "rref"):
            ty = s.types[ty["e"]]
        return ty

    def file(s, f):
        return s.files[f["file"]]


class Sym:
    __slots__ = ("kind", "deps", "x")

    def __init__(s, kind, deps=frozenset(), x=None):
        s.kind = kind
        s.deps = deps
        s.x = x


STD_INT1 = {"size_t"}


class Interp:
    def __init__(s, prog, contracts=None, maxdepth=12, values=True):
        s.P = prog
        s.contracts = contracts or {}
        s.ev = []
        s.rec = True
        s.syms = {}
        s.nsym = 0
        s.memo = {}
        s.defs = {}
        s.maxphi = 60
        s.seq = 0
        s.prefix = []
        s.loops = []
        s.stack = []
        s.maxdepth = maxdepth
        s.nloc = 0
        s.nowrap = 0
        s.autosplit = False
        s.hull = 0
        s.inexact = None
        s.nthrow = 0
        s.curfile = ""
        s.curline = 0
        s.itersyms = set()
        s.values = values
        s.warn = []
        s.obls = 0
        s.roots = []
        s.calls = []
        s.fuel = 400000
        s.globalsv = {}
        s.unkcalls = {}

    # ------------------------------------------------------------ symbols
    def fresh(s, pre, kind, deps=frozenset(), x=None):
        s.nsym += 1
        n = "%s_%d" % (pre, s.nsym)
        s.syms[n] = Sym(kind, frozenset(deps), x)
        return n

    def depsof(s, *lins):
        r = set()
        for l in lins:
            if isinstance(l, Lin):
                for q in l.syms():
                    sy = s.syms.get(q)
                    if sy is None:
                        continue
                    if sy.kind in ("iter", "head"):
                        r.add(q)
                    r |= sy.deps
            elif isinstance(l, Set):
                if l is TRUE or l is FALSE:
                    continue
                for q in l.params():
                    sy = s.syms.get(q)
                    if sy is None:
                        continue
                    if sy.kind in ("iter", "head"):
                        r.add(q)
                    r |= sy.deps
            elif isinstance(l, F):
                r |= s.depsof(*l.a)
            elif isinstance(l, tuple):
                r |= s.depsof(*l)
        return r

    def dim(s, name):
        """symbol for an input size"""
        s.syms[name] = Sym("dim")
        return Lin.sym(name)

    def entails(s, st, cond):
        """does the state imply the condition"""
        if cond is TRUE:
            return True
        if cond is FALSE:
            return st.ctx.empty()
        s.tick()
        return st.ctx.subset(cond)

    def tick(s, n=1):
        s.fuel -= n
        if s.fuel < 0:
            raise Stop("fuel")

    def defsym(s, st, key, pre, mkset, kind="def", deps=None):
        """memoised symbol with a defining constraint"""
        n = s.memo.get(key)
        if n is None:
            n = s.fresh(pre, kind, deps if deps is not None else s.depsof(*[k for k in key if isinstance(k, (Lin, F, tuple))]))
            s.memo[key] = n
            s.defs[n] = mkset(n)
        if s.defs[n] is not None:
            st.ctx = st.ctx & s.defs[n]
        return Lin.sym(n)

    def trysplit(s, st, a, b):
        """ask for separate analyses of a <= b and a > b when this is decided by
        the sizes alone; small constant bounds are enumerated"""
        if b.const:
            a, b = b, a
        if a.const and 0 < a.c <= 8:
            cs = [rel(b, ">=", a)] + [rel(b, "==", j) for j in range(a.c)]
        else:
            cs = [rel(a, "<=", b), rel(a, ">", b)]
        s.splitby(st, cs)

    def splitby(s, st, cs):
        if not s.autosplit or s.loops:
            return
        xs = []
        for q in cs:
            x = st.ctx & q
            dims = [n for n in s.plist(x) if s.syms.get(n) and s.syms[n].kind == "dim"]
            if x.empty():
                continue
            x = x.keep(dims)
            if any(not (x & y).empty() for y in xs):
                return
            xs.append(x)
        if len(xs) > 1:
            raise Split(xs)

    def imin(s, st, a, b, op="min"):
        a = L(a)
        b = L(b)
        if a == b:
            return a
        x = a - b
        if x.const:
            return a if (x.c < 0) == (op == "min") else b
        if s.entails(st, rel(a, "<=", b)):
            return a if op == "min" else b
        if s.entails(st, rel(b, "<=", a)):
            return b if op == "min" else a
        if str(b) < str(a):
            a, b = b, a
        if s.autosplit and not s.loops:
            s.trysplit(st, a, b)

        def mk(n):
            q = Lin.sym(n)
            if op == "min":
                return (rel(a, "<=", b) & rel(q, "==", a)) | (rel(b, "<", a) & rel(q, "==", b))
            return (rel(a, ">=", b) & rel(q, "==", a)) | (rel(b, ">", a) & rel(q, "==", b))
        return s.defsym(st, (op, a, b), "mn" if op == "min" else "mx", mk)

    def idiv(s, st, a, k):
        if a.const:
            q = abs(a.c) // abs(k)
            return L(q if (a.c >= 0) == (k > 0) else -q)
        if k == 1:
            return a
        if all(c % k == 0 for _, c in a.t) and a.c % k == 0:
            return Lin(tuple((q, c // k) for q, c in a.t), a.c // k)

        def mk(n):
            q = Lin.sym(n)
            pos = rel(a, ">=", 0) & rel(q.scale(k), "<=", a) & rel(a, "<=", q.scale(k) + (k - 1))
            if k > 0:
                neg = rel(a, "<", 0) & rel(q.scale(k), ">=", a) & rel(a, ">=", q.scale(k) - (k - 1))
                return pos | neg
            return pos
        if k > 0:
            return s.defsym(st, ("div", a, L(k)), "q", mk)
        return s.opaque(st, ("div", a, L(k)))

    def imul(s, st, a, b):
        if a.const:
            return b.scale(a.c)
        if b.const:
            return a.scale(b.c)
        r = L(a.c * b.c)
        r = r + Lin(a.t, 0).scale(b.c) + Lin(b.t, 0).scale(a.c)
        for x, k in a.t:
            for y, l in b.t:
                r = r + s.mono(st, x, y).scale(k * l)
        return r

    def mono(s, st, x, y):
        fx = s.syms[x].x if s.syms.get(x) and s.syms[x].kind == "opq" and isinstance(s.syms[x].x, tuple) and s.syms[x].x[0] == "mono" else ("mono", x)
        fy = s.syms[y].x if s.syms.get(y) and s.syms[y].kind == "opq" and isinstance(s.syms[y].x, tuple) and s.syms[y].x[0] == "mono" else ("mono", y)
        fac = tuple(sorted(fx[1:] + fy[1:]))
        key = ("mono",) + fac
        n = s.memo.get(key)
        if n is None:
            n = s.fresh("m", "opq", s.depsof(Lin.sym(x), Lin.sym(y)), key)
            s.memo[key] = n
            X = Lin.sym(x)
            Y = Lin.sym(y)
            M = Lin.sym(n)
            pos = rel(X, ">=", 1) & rel(Y, ">=", 1) & rel(M, ">=", X + Y - 1)
            z = (rel(X, "==", 0) & rel(Y, ">=", 0) & rel(M, "==", 0)) | (rel(Y, "==", 0) & rel(X, ">=", 0) & rel(M, "==", 0))
            neg = rel(X, "<", 0) | rel(Y, "<", 0)
            s.defs[n] = pos | z | neg
        st.ctx = st.ctx & s.defs[n]
        return Lin.sym(n)

    def opaque(s, st, key):
        n = s.memo.get(key)
        if n is None:
            n = s.fresh("o", "havoc", s.depsof(*[k for k in key if isinstance(k, (Lin, F))]), key)
            s.memo[key] = n
            s.defs[n] = None
        return Lin.sym(n)

    def wrap(s, st, v, ty):
        """value of mathematical integer v stored in integer type ty"""
        if ty.get("k") != "int":
            return v
        bits, sg = ty["bits"], ty["sg"]
        lo = -(1 << (bits - 1)) if sg else 0
        hi = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
        mod = 1 << bits
        if v.const:
            c = (v.c - lo) % mod + lo
            return L(c)
        if s.nowrap:
            return v
        if sg:
            if bits >= 64:
                return v
            # narrow signed: only care when value comes from 'big'
            if not any(s.syms[q].kind == "big" for q in v.syms() if q in s.syms) and abs(v.c) < (1 << 40):
                return v
        ok = rel(v, ">=", lo)
        big = abs(v.c) > (1 << 40) or any(s.syms.get(q) is not None and s.syms[q].kind == "big" for q in v.syms())
        if s.entails(st, ok):
            if not big:
                return v
            if s.entails(st, rel(v, "<=", hi)):
                return v
        elif s.entails(st, rel(v, "<", lo)) and s.entails(st, rel(v, ">=", lo - mod)):
            return v + mod

        def mk(n):
            q = Lin.sym(n)
            r = rel(v, ">=", lo) & rel(v, "<=", hi) & rel(q, "==", v)
            r = r | (rel(v, "<", lo) & rel(v, ">=", lo - mod) & rel(q, "==", v + mod))
            r = r | (rel(v, ">", hi) & rel(v, "<=", hi + mod) & rel(q, "==", v - mod))
            return r
        return s.defsym(st, ("wrap", v, L(lo), L(mod)), "w", mk, "big")

    def pred(s, st, key, deps=None):
        """free Boolean depending on data"""
        n = s.memo.get(("pred", key))
        if n is None:
            n = s.fresh("b", "pred", deps if deps is not None else (s.depsof(*key) if isinstance(key, tuple) else frozenset()), key)
            s.memo[("pred", key)] = n
            s.defs[n] = parse([n], "0 <= %s <= 1" % n)
        st.ctx = st.ctx & s.defs[n]
        return B(parse([n], "%s = 1" % n), parse([n], "%s = 0" % n))

    def freshpred(s, st):
        return s.pred(st, ("fresh", s.nsym), frozenset(s.loops))

    # ------------------------------------------------------------ store
    def newloc(s, st, v):
        s.nloc += 1
        st.st[s.nloc] = v
        return ("loc", s.nloc)

    def read(s, st, lv):
        k = lv[0]
        if k == "val":
            return lv[1]
        if k == "loc":
            return st.st.get(lv[1], Unk("unset"))
        if k == "fld":
            b = s.read(st, lv[1])
            if isinstance(b, Rec):
                return b.f.get(lv[2], Unk("field " + lv[2]))
            if isinstance(b, View):
                if lv[2] == "n":
                    return b.nc if b.rank == 2 else b.nr
                if lv[2] == "m":
                    return b.nr
                if lv[2] == "ldim":
                    return s.opaque(st, ("ldim", b.root.id))
                if lv[2] == "inc":
                    return s.opaque(st, ("inc", b.root.id))
            return Unk("field")
        if k == "el":
            return s.rd_el(st, lv[1], lv[2], lv[3])
        if k == "arr":
            b = s.read(st, lv[1])
            if isinstance(b, Rec) and lv[2].const and lv[2].c in b.f:
                return b.f[lv[2].c]
            return Unk("arr")
        return Unk("lv")

    def write(s, st, lv, v, op=None):
        k = lv[0]
        if k == "loc":
            st.st[lv[1]] = v
        elif k == "fld":
            b = s.read(st, lv[1])
            if isinstance(b, Rec):
                s.write(st, lv[1], b.set(lv[2], v))
        elif k == "el":
            s.wr_el(st, lv[1], lv[2], lv[3], v, op)
        elif k == "arr":
            b = s.read(st, lv[1])
            if isinstance(b, Rec):
                if lv[2].const:
                    s.write(st, lv[1], b.set(lv[2].c, v))
                else:
                    s.write(st, lv[1], Rec(b.ty, {q: Unk("arr") for q in b.f}))

    # ------------------------------------------------------------ events
    def mkev(s, k, st, **kw):
        e = Ev()
        e.k = k
        e.root = kw.get("root")
        e.ix = kw.get("ix")
        e.ctx = kw.get("ctx") or st.ctx
        s.seq += 1
        e.time = tuple(s.prefix) + (s.seq,)
        e.loc = (s.curfile, s.curline)
        e.val = kw.get("val")
        e.view = kw.get("view")
        e.op = kw.get("op")
        e.fn = s.stack[-1] if s.stack else None
        e.stack = tuple(s.stack)
        e.x = kw.get("x")
        e.loops = tuple(s.loops)
        e.no = len(s.ev)
        e.exact = s.inexact is None
        e.used = None
        if s.rec:
            s.ev.append(e)
        return e

    def rd_el(s, st, v, i, j, quiet=False):
        if not isinstance(v, View):
            return Unk("el")
        r, c = v.at(i, j)
        e = s.mkev("R", st, root=v.root, ix=(r, c), view=(v, i, j))
        x = s.elval(st, v, r, c)
        if isinstance(x, F):
            x.ev = e
            e.used = False
        return x

    def elval(s, st, v, r, c):
        if v.et in ("i", "b"):
            key = ("iel", L(v.root.id), r, c, L(v.root.ver))
            rng = v.root.range

            def mk(n):
                if v.et == "b":
                    return parse([n], "0 <= %s <= 1" % n)
                if rng is None:
                    return None
                return rel(Lin.sym(n), ">=", rng[0]) & rel(Lin.sym(n), "<=", rng[1])
            x = s.defsym(st, key, "e", mk, "data" if v.et == "b" else "havoc")
            if v.et == "b":
                return B(rel(x, "==", 1))
            return x
        return F("rd", v.root, r, c, v.root.ver)

    def wr_el(s, st, v, i, j, val, op=None):
        if not isinstance(v, View):
            return
        r, c = v.at(i, j)
        use(val)
        s.mkev("W", st, root=v.root, ix=(r, c), view=(v, i, j), val=val, op=op)
        v.root.ver += 1

    # ------------------------------------------------------------ joins
    def valeq(s, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        try:
            return a == b
        except IslError:
            return False

    def join2(s, a, b):
        if a is None:
            return b
        if b is None:
            return a
        st = {}
        ca, cb = a.ctx, b.ctx
        r = State(a.fr, st, None, a.this)
        pend = []
        for k, va in a.st.items():
            if k not in b.st:
                continue
            vb = b.st[k]
            if s.valeq(va, vb):
                st[k] = va
            else:
                st[k] = s.joinval(va, vb, pend, a, b)
        for (n, xa, xb) in pend:
            ca = ca & rel(Lin.sym(n), "==", xa)
            cb = cb & rel(Lin.sym(n), "==", xb)
        r.ctx = ca | cb
        if r.ctx is not TRUE and r.ctx.nbasic() > 6:
            if s.hull and r.ctx.nbasic() > 4 * s.hull:
                r.ctx = s.widen(r.ctx)
            else:
                r.ctx = r.ctx.coalesce()
                if s.hull and r.ctx.nbasic() > s.hull:
                    r.ctx = s.widen(r.ctx)
        fr = {k: v for k, v in a.fr.items() if k in b.fr}
        r.fr = fr
        return r

    def widen(s, x):
        """give up the exact set of valuations: nothing that follows is definite"""
        if s.inexact is None:
            s.inexact = len(s.ev)
        return x.hull()

    def joinval(s, va, vb, pend, a, b):
        if s.valeq(va, vb):
            if va is not vb:
                use(va, vb)
            return va
        use(va, vb)
        if isinstance(va, Lin) and isinstance(vb, Lin):
            for (n, xa, xb) in pend:
                if xa == va and xb == vb:
                    return Lin.sym(n)
                # same difference as an existing join symbol
                if (va - xa) == (vb - xb) and (va - xa).const:
                    return Lin.sym(n) + (va - xa).c
            big = any(s.syms.get(q) is not None and s.syms[q].kind == "big" for q in va.syms() + vb.syms()) or abs(va.c) > (1 << 40) or abs(vb.c) > (1 << 40)
            n = s.fresh("j", "big" if big else "def", s.depsof(va, vb) | set(s.loops))
            pend.append((n, va, vb))
            return Lin.sym(n)
        if isinstance(va, B) and isinstance(vb, B):
            return B((a.ctx & va.T) | (b.ctx & vb.T), (a.ctx & va.F) | (b.ctx & vb.F))
        if isinstance(va, F) and isinstance(vb, F):
            if va.k == "opq" or vb.k == "opq" or va.sz + vb.sz > s.maxphi:
                return F("opq", s.fresh("f", "f"))
            return F("phi", a.ctx, va, b.ctx, vb)
        if isinstance(va, Rec) and isinstance(vb, Rec) and va.ty == vb.ty:
            return Rec(va.ty, {k: s.joinval(va.f[k], vb.f[k], pend, a, b) for k in va.f if k in vb.f})
        if isinstance(va, View) and isinstance(vb, View):
            g = lambda x, y: s.joinval(x, y, pend, a, b)
            if va.root is vb.root and va.rank == vb.rank and va.m[1:3] == vb.m[1:3] and va.m[4:] == vb.m[4:]:
                return View(va.root, va.rank, g(va.nr, vb.nr), g(va.nc, vb.nc), (g(va.m[0], vb.m[0]), va.m[1], va.m[2], g(va.m[3], vb.m[3]), va.m[4], va.m[5]), va.et)
            if va.et == vb.et and va.rank == vb.rank and s.top(va.root) is s.top(vb.root) and va.root.role == "work":
                e = [isinstance(x.nr, Lin) and x.nr == L(0) for x in (va, vb)]
                if e[0] or e[1]:
                    v = vb if e[0] else va       # the other one is empty
                    return View(v.root, v.rank, g(va.nr, vb.nr), g(va.nc, vb.nc), v.m, v.et)
                n = va.root.name.split(".")[0]
                s.nsym += 1
                r = Root("%s.join%d" % (n, s.nsym), g(va.nr, vb.nr), g(va.nc, vb.nc), "work", va.et, va.rank)
                t = s.top(va.root)
                r.parent = (t, L(0), t.nr)
                s.roots.append(r)
                return View(r, va.rank, r.nr, r.nc, (L(0), 1, 0, L(0), 0, 1 if va.rank == 2 else 0), va.et)
        return Unk("join")

    def top(s, r):
        while r.parent is not None:
            r = r.parent[0]
        return r

    def join(s, sts):
        r = None
        for x in sts:
            if x is None:
                continue
            r = x if r is None else s.join2(r, x)
        return r

    # ------------------------------------------------------------ statements
    def drop(s, flow, locs):
        if not locs:
            return flow
        for st in [flow.n] + flow.b + flow.c:
            if st is not None:
                for l in locs:
                    st.st.pop(l, None)
        return flow

    def seqx(s, stmts, st):
        fl = Flow(st)
        for x in stmts:
            if fl.n is None:
                break
            f2 = s.ex(x, fl.n)
            fl.n = f2.n
            fl.b += f2.b
            fl.c += f2.c
            fl.r += f2.r
        return fl

    def ex(s, x, st):
        if x is None:
            return Flow(st)
        k = x["k"]
        s.curline = x.get("l", s.curline)
        s.tick()
        if k == "block":
            n0 = s.nloc
            fl = s.seqx(x["b"], st)
            if s.nloc > n0:
                for q in [fl.n] + fl.b + fl.c:
                    if q is not None:
                        for l in [l for l in q.st if l > n0]:
                            # keep locations that are still referenced from outside (return temporaries live in flow.r)
                            del q.st[l]
            return fl
        if k == "expr":
            s.ev_(x["e"], st)
            return Flow(st if not s.dead(st) else None)
        if k == "decl":
            for v in x["v"]:
                s.declare(v, st)
            return Flow(st)
        if k == "if":
            return s.ex_if(x, st)
        if k == "for":
            n0 = s.nloc
            fl = s.ex(x["init"], st) if x["init"] else Flow(st)
            fl2 = s.loop(x, x["c"], x["inc"], x["b"], fl.n)
            for q in [fl2.n] + fl2.b + fl2.c:
                if q is not None:
                    for l in [l for l in q.st if l > n0]:
                        del q.st[l]
            return fl2
        if k == "while":
            return s.loop(x, x["c"], None, x["b"], st)
        if k == "do":
            return s.loop(x, x["c"], None, x["b"], st, True)
        if k == "ret":
            v = None
            if x.get("e"):
                v = s.retval(x["e"], st)
            if len(s.stack) == 1:
                s.mkev("RET", st, x=v)
            fl = Flow(None)
            fl.r.append((st, v))
            return fl
        if k == "break":
            fl = Flow(None)
            fl.b.append(st)
            return fl
        if k == "continue":
            fl = Flow(None)
            fl.c.append(st)
            return fl
        if k == "switch":
            return s.ex_switch(x, st)
        if k == "try":
            return s.ex(x["b"], st)
        if k == "rangefor":
            raise Stop("range-for")
        raise Stop("statement " + k + " " + x.get("cls", ""))

    def retval(s, e, st):
        """value returned; keep references to array elements as lvalues"""
        if s.retref:
            lv = s.lv(e, st)
            return ("LV", lv)
        return s.ev_(e, st)

    def dead(s, st):
        return st.ctx is FALSE or (st.ctx is not TRUE and st.ctx.empty())

    def split(s, st, b):
        """states where the Boolean holds / fails (None when unreachable)"""
        if isinstance(b, Lin):
            b = B(rel(b, "!=", 0))
        if not isinstance(b, B):
            b = s.freshpred(st)
        if b.T is TRUE:
            return st, None
        if b.T is FALSE:
            return None, st
        t = st.fork(st.ctx & b.T)
        if s.dead(t):
            return None, st
        f = st.fork(st.ctx & b.F)
        if s.dead(f):
            return st, None
        return t, f

    def ex_if(s, x, st):
        if x.get("init"):
            fl = s.ex(x["init"], st)
            st = fl.n
        for v in x.get("cv", []):
            s.declare(v, st)
        c = s.ev_(x["c"], st)
        line = s.curline
        t, f = s.split(st, c)
        out = Flow(None)
        if t is not None:
            ft = s.ex(x["t"], t)
        else:
            ft = Flow(None)
        if f is not None:
            ff = s.ex(x["f"], f) if x.get("f") else Flow(f)
        else:
            ff = Flow(None)
        out.b = ft.b + ff.b
        out.c = ft.c + ff.c
        out.r = ft.r + ff.r
        out.n = s.join([ft.n, ff.n])
        return out

    def ex_switch(s, x, st):
        if x.get("init"):
            st = s.ex(x["init"], st).n
        c = s.ev_(x["c"], st)
        if not isinstance(c, Lin):
            raise Stop("switch")
        # flatten cases
        items = []

        def fl(b):
            if b["k"] in ("case", "default"):
                items.append(("case", b["e"] if b["k"] == "case" else None))
                if b.get("b"):
                    fl(b["b"])
            elif b["k"] == "block" and any(y["k"] in ("case", "default") for y in b["b"]):
                for y in b["b"]:
                    fl(y)
            else:
                items.append(("st", b))
        fl(x["b"])
        vals = []
        for k, e in items:
            if k == "case" and e is not None:
                vals.append(s.ev_(e, st))
        out = Flow(None)
        cur = None
        rest = st
        hasdef = any(k == "case" and e is None for k, e in items)
        vi = 0
        for k, e in items:
            if k == "case":
                if e is not None:
                    t, rest2 = s.split(st.fork(), B(rel(c, "==", vals[vi])))
                    vi += 1
                    cur = s.join([cur, t])
                else:
                    d = TRUE
                    for v in vals:
                        d = d & rel(c, "!=", v)
                    t, _ = s.split(st.fork(), B(d))
                    cur = s.join([cur, t])
            elif cur is not None:
                f = s.ex(e, cur)
                cur = f.n
                out.c += f.c
                out.r += f.r
                out.b += f.b
        ends = list(out.b) + [cur]
        out.b = []
        if not hasdef:
            d = TRUE
            for v in vals:
                d = d & rel(c, "!=", v)
            t, _ = s.split(st.fork(), B(d))
            ends.append(t)
        out.n = s.join(ends)
        return out

    def declare(s, v, st):
        s.curline = v.get("l", s.curline)
        if v.get("k") == "decomp":
            val = s.ev_(v["init"], st) if v.get("init") else Unk("decomp")
            for i, b in enumerate(v["b"]):
                fv = Unk("decomp")
                if isinstance(val, Rec):
                    keys = list(val.f)
                    nm = b.get("f")
                    if nm in val.f:
                        fv = val.f[nm]
                    elif i < len(keys):
                        fv = val.f[keys[i]]
                lv = s.newloc(st, fv)
                st.fr[b["d"]] = lv
                if "hd" in b:
                    st.fr[b["hd"]] = lv
            return
        ty = s.P.T(v["t"])
        if v.get("static"):
            s.mkev("static", st, x=v["n"])
        if ty["k"] in ("ref", "rref") and v.get("init"):
            lv = s.lv(v["init"], st)
            if lv[0] == "val":
                lv = s.newloc(st, lv[1])
            st.fr[v["d"]] = lv
            return
        if v.get("init"):
            val = s.ev_(v["init"], st)
            val = s.conv(val, ty, st)
        elif ty["k"] == "arr":
            val = Rec("arr", {i: Unk("uninit") for i in range(min(ty["n"], 64))})
        elif ty["k"] in ("int", "enum"):
            val = Unk("uninit")
        else:
            val = s.default(ty, st)
        st.fr[v["d"]] = s.newloc(st, val)

    def default(s, ty, st):
        if ty["k"] == "rec":
            nm = ty["name"]
            if nm == "std::vector":
                return s.newvec(st, L(0), ty)
            if "fields" in ty:
                return s.defrec(ty, st)
        if ty["k"] == "float" or (ty["k"] == "rec" and ty["name"] == "std::complex"):
            return Unk("uninit")
        return Unk("default " + ty.get("s", ""))

    def defrec(s, ty, st):
        f = {}
        for b in ty.get("bases", []):
            bt = s.P.T(b)
            r = s.defrec(bt, st)
            f.update(r.f)
        for fd in ty.get("fields", []):
            if fd.get("init"):
                f[fd["n"]] = s.conv(s.ev_(fd["init"], st), s.P.T(fd["t"]), st)
            else:
                ft = s.P.T(fd["t"])
                if ft["k"] == "rec" and "fields" in ft:
                    f[fd["n"]] = s.defrec(ft, st)
                else:
                    f[fd["n"]] = Unk("field")
        return Rec(ty["name"], f)

    def newvec(s, st, n, ty=None):
        s.nsym += 1
        et = "f"
        if ty and ty.get("args"):
            t0 = s.P.T(ty["args"][0]["t"])
            et = {"float": "f", "int": "i", "bool": "b"}.get(t0["k"], "c" if t0.get("name") == "std::complex" else "o")
        r = Root("alloc%d@%s:%d" % (s.nsym, s.curfile.split("/")[-1], s.curline), n, L(1), "alloc", et, 1)
        s.roots.append(r)
        return View(r, 1, n, L(1), (L(0), 1, 0, L(0), 0, 0))

    def conv(s, v, ty, st):
        while ty["k"] in ("ref", "rref"):
            ty = s.P.T(ty["e"])
        if ty["k"] == "bool":
            if isinstance(v, Lin):
                return B(rel(v, "!=", 0))
            return v
        if ty["k"] == "int":
            if isinstance(v, B):
                return s.b2i(st, v)
            if isinstance(v, F):
                return s.f2i(st, v)
            return v
        if ty["k"] == "float" or ty.get("name") == "std::complex":
            if isinstance(v, Lin):
                return s.i2f(v)
            return v
        return v

    def b2i(s, st, b):
        if b.T is TRUE:
            return L(1)
        if b.T is FALSE:
            return L(0)
        n = s.fresh("z", "def", s.depsof(b.T))
        q = Lin.sym(n)
        st.ctx = st.ctx & ((b.T & rel(q, "==", 1)) | (b.F & rel(q, "==", 0)))
        return q

    def i2f(s, v):
        if isinstance(v, Lin):
            if v.const:
                return F("n", Fraction(v.c))
            return F("i", v)
        return v

    def f2i(s, st, v):
        if v.k == "n" and isinstance(v.a[0], Fraction):
            return L(int(v.a[0]))
        if v.k == "i":
            return v.a[0]
        n = s.fresh("fi", "havoc", s.depsof(v))
        return Lin.sym(n)

    # ------------------------------------------------------------ loops
    def assigned(s, node):
        """dids assigned in a syntax tree (through names)"""
        key = id(node)
        r = s.P._mods.get(key)
        if r is not None:
            return r[0]
        out = set()
        P = s.P
        P._mods[key] = (out, node)

        def base(e):
            while e is not None:
                k = e["k"]
                if k == "ref":
                    out.add(e["d"])
                    return
                if k in ("mem",):
                    e = e["b"]
                elif k == "idx":
                    e = e["b"]
                elif k in ("cast", "copy"):
                    e = e["e"]
                elif k == "un" and e["op"] in ("++", "--", "*"):
                    e = e["e"]
                elif k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "<=", ">=", "!="):
                    e = e["a"]
                elif k == "cond":
                    base(e["a"])
                    e = e["b"]
                elif k == "lambda":
                    for c in e.get("caps", []):
                        if c.get("byref") and "d" in c:
                            out.add(c["d"])
                    return
                elif k == "call" and e.get("op") in ("=", "+=", "-=", "*=", "/="):
                    e = e["a"][0]
                else:
                    return

        def walk(x):
            if isinstance(x, list):
                for y in x:
                    walk(y)
                return
            if not isinstance(x, dict):
                return
            k = x.get("k")
            if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "<=", ">=", "!="):
                base(x["a"])
            elif k == "un" and x["op"] in ("++", "--"):
                base(x["e"])
            elif k == "un" and x["op"] == "&":
                base(x["e"])
            elif k == "call":
                op = x.get("op")
                if op in ("=", "+=", "-=", "*=", "/=", "++", "--"):
                    base(x["a"][0])
                elif "f" in x and op not in ("()", "[]"):
                    f = P.fns[x["f"]]
                    args = x["a"]
                    ps = f["params"]
                    if x.get("m") and not f.get("static"):
                        if args and not f.get("constm"):
                            base(args[0])
                        args = args[1:]
                    for a, p in zip(args, ps):
                        t = P.T(p["t"])
                        if t["k"] == "ref" and not P.T(t["e"]).get("const"):
                            base(a)
                        elif t["k"] == "rref":
                            base(a)
                        elif t["k"] == "ptr":
                            base(a)
                elif "callee" in x:
                    for a in x["a"]:
                        base(a)
                elif op == "()" and "f" in x:
                    g = P.fns[x["f"]]
                    if g and g.get("body") is not None and "(anonymous class)" in g["name"]:
                        # a (generic) lambda: what its body assigns is named as outside
                        out.update(s.assigned(g["body"]))
                    for a, p in zip(x["a"][1:], P.fns[x["f"]]["params"]):
                        t = P.T(p["t"])
                        if t["k"] == "ref" and not P.T(t["e"]).get("const"):
                            base(a)
            elif k == "decl":
                for v in x["v"]:
                    t = v.get("t")
                    if t is not None and P.T(t)["k"] in ("ref", "rref") and v.get("init"):
                        base(v["init"])
            elif k == "lambda" and x.get("op") is not None:
                # what its body assigns through by-reference captures
                g = P.fns[x["op"]]
                if g and g.get("body") is not None:
                    md = s.assigned(g["body"])
                    for c in x.get("caps", []):
                        if c.get("byref") and c.get("d") in md:
                            out.add(c["d"])
            for y in x.values():
                if isinstance(y, (dict, list)):
                    walk(y)
        walk(node)
        # follow lambdas called by name: their by-reference captures
        P._mods[key] = (out, node)
        return out

    def hasexit(s, body):
        key = id(body)
        r = s.P._brk.get(key)
        if r is not None:
            return r[0]

        def walk(x, depth):
            if isinstance(x, list):
                return any(walk(y, depth) for y in x)
            if not isinstance(x, dict):
                return False
            k = x.get("k")
            if k == "ret":
                return True
            if k == "break" and depth == 0:
                return True
            if k == "throw":
                return False
            if k in ("for", "while", "do", "switch", "rangefor"):
                return any(walk(y, depth + 1) for y in x.values() if isinstance(y, (dict, list)))
            if k in ("expr", "decl"):
                return False
            return any(walk(y, depth) for y in x.values() if isinstance(y, (dict, list)))
        v = walk(body, 0)
        s.P._brk[key] = (v, body)
        return v

    def loop(s, x, cond, inc, body, st0, post=False):
        if st0 is None:
            return Flow(None)
        line0 = s.curline
        mods = set()
        for n in (cond, inc, body):
            if n is not None:
                mods |= s.assigned(n)
        locs = {}
        for d in mods:
            lv = st0.fr.get(d)
            # resolve to locations
            while lv is not None and lv[0] in ("fld", "arr"):
                lv = lv[1]
            if lv is not None and lv[0] == "loc" and lv[1] in st0.st:
                locs[lv[1]] = d
        # lambda captures: any variable modified inside called lambdas
        for l, v in list(st0.st.items()):
            if isinstance(v, Lam):
                for cl in v.cap.values():
                    if cl[0] == "loc" and cl[1] in st0.st and v.op is not None:
                        f = s.P.fns[v.op]
                        if f.get("body") and f["body"] is not None:
                            md = s.assigned(f["body"])
                            for dd, cc in v.cap.items():
                                if dd in md and cc[0] == "loc" and cc[1] in st0.st:
                                    locs[cc[1]] = dd
        n0 = s.nloc

        def onepass(h, collect=True):
            """run one iteration from head state h: (next, exit, breaks, returns)"""
            cur = h
            exit_ = None
            if not post and cond is not None:
                c = s.ev_(cond, cur)
                cur, exit_ = s.split(cur, c)
                if cur is not None and exit_ is not None and exit_ is cur:
                    exit_ = None
            if cur is None:
                return None, exit_, [], []
            fl = s.ex(body, cur)
            nx = s.join([fl.n] + fl.c)
            if nx is not None and inc is not None:
                s.ev_(inc, nx)
            if nx is not None and post:
                c = s.ev_(cond, nx)
                nx, exit_ = s.split(nx, c)
            return nx, exit_, fl.b, fl.r

        # ---- simple pattern: loop variables changed only by constant steps in inc/cond
        mark0 = s.nsym
        t = s.fresh("t", "iter", frozenset(s.loops))
        tl = Lin.sym(t)
        # probe
        heads = {}
        hp = st0.fork()
        for l in locs:
            v = st0.st[l]
            if isinstance(v, Lin) or (isinstance(v, Unk) and v.why == "uninit"):
                hn = s.fresh("h", "head", frozenset(s.loops))
                heads[l] = hn
                hp.st[l] = Lin.sym(hn)
            elif isinstance(v, F):
                hp.st[l] = s.havocval(hp, v)
            # other values: assumed unchanged, verified below
        rec, s.rec = s.rec, False
        s.nowrap += 1
        vers = {r: r.ver for r in s.roots}
        symmark = s.nsym
        s.loops.append(t)
        strides = {}
        fend = {}
        try:
            nx, exit_, brk, rets = onepass(hp)
        finally:
            s.nowrap -= 1
            s.rec = rec
            s.loops.pop()
        reset = {}
        if nx is not None:
            for l, hn in heads.items():
                e = nx.st.get(l)
                if isinstance(e, Lin):
                    dlt = e - Lin.sym(hn)
                    if dlt.const:
                        c = dlt.c
                        if isinstance(c, int) and abs(c) > (1 << 62):
                            c = (c + (1 << 63)) % (1 << 64) - (1 << 63)
                        strides[l] = c
                    elif hn not in e.syms() and all(not s.inner(q, symmark, heads.values(), t) for q in e.syms()):
                        reset[l] = e
                    else:
                        strides[l] = s.bounds(nx.ctx, dlt)
                else:
                    strides[l] = None
        # ---- real head state
        h = st0.fork()
        h.ctx = h.ctx & rel(tl, ">=", 0)
        s.loops.append(t)
        headval = {}
        for l in locs:
            v = st0.st[l]
            d = locs[l]
            if l in heads:
                if nx is None:
                    continue      # body never completes: single iteration
                sd = strides.get(l)
                if l in reset:
                    if isinstance(v, Lin):
                        n = s.fresh("r", "def", s.depsof(v, reset[l]) | {t})
                        q = Lin.sym(n)
                        h.ctx = h.ctx & ((rel(tl, "==", 0) & rel(q, "==", v)) | (rel(tl, ">=", 1) & rel(q, "==", reset[l])))
                        h.st[l] = q
                    else:
                        h.st[l] = s.havocint(h)
                elif isinstance(sd, int) and isinstance(v, Lin):
                    val = v + tl.scale(sd)
                    headval[l] = (v, sd)
                    h.st[l] = val
                    if sd < 0:
                        ty = s.vartype(d)
                        h.st[l] = s.wraphead(h, val, ty)
                elif isinstance(v, Lin):
                    q = s.havocint(h)
                    if isinstance(sd, tuple):
                        lo, hi = sd
                        if lo is not None:
                            h.ctx = h.ctx & rel(q, ">=", v + tl.scale(lo))
                        if hi is not None:
                            h.ctx = h.ctx & rel(q, "<=", v + tl.scale(hi))
                    h.ctx = h.ctx & (rel(tl, ">=", 1) | rel(q, "==", v))
                    ty = s.vartype(d)
                    if ty and ty.get("k") == "int" and not ty["sg"]:
                        h.ctx = h.ctx & rel(q, ">=", 0)
                    h.st[l] = q
                else:
                    h.st[l] = s.havocint(h)
            elif nx is not None:
                h.st[l] = s.loopval(h, st0, nx, l, v, t)
        prev_prefix = list(s.prefix)
        s.seq += 1
        seq0 = s.seq
        symmark2 = s.nsym
        H = h.ctx
        try:
            if nx is None:
                # the body never reaches its end: at most one iteration
                h.ctx = h.ctx & rel(tl, "==", 0)
                D = h.ctx
                s.prefix = prev_prefix + [seq0, t]
                nx2, exit_, brk, rets = onepass(h)
            else:
                if cond is None and not s.hasexit(body):
                    s.mkev("infinite", h)
                # domain
                rec, s.rec = s.rec, False
                hd = h.fork()
                e_, b_, r_ = None, [], []
                nthrow = s.nthrow
                if not s.hasexit(body) and not post:
                    if cond is not None:
                        c = s.ev_(cond, hd)
                        tt, ff = s.split(hd, c)
                        cont = tt
                        e_ = ff
                    else:
                        cont = hd
                else:
                    cont, e_, b_, r_ = onepass(hd)
                s.rec = rec
                inner = [n for n in (cont.ctx.params() if cont is not None and cont.ctx is not TRUE and cont.ctx is not FALSE else []) if s.inner(n, symmark2, (), t) and n != t]
                Hi = H
                hin = [n for n in s.plist(H) if s.inner(n, symmark, (), t) and n != t and n not in s.plist(st0.ctx)]
                Cn = FALSE if cont is None else cont.ctx.project(inner + hin)
                H2 = H.project(hin)
                bad = H2 - Cn
                if bad.empty():
                    D = TRUE
                    s.mkev("nonterm", h)
                else:
                    tp = t + "p"
                    bad = bad.rename({t: tp})
                    bad = bad & rel(Lin.sym(tp), ">=", 0) & rel(Lin.sym(tp), "<", tl)
                    D = H2 - bad.project([tp])
                    D = D.coalesce()
                h.ctx = h.ctx & D
                s.lastD = D
                # termination obligation: every start reaches an end
                if rec and not s.dead(h):
                    ex = H2 - Cn
                    for o in ([e_] if e_ is not None else []) + b_ + [r if not isinstance(r, tuple) else r[0] for r in r_]:
                        c = o.ctx
                        if c is not TRUE and c is not FALSE:
                            c = c.project([n for n in c.params() if s.inner(n, symmark2, (), t) and n != t or n in hin])
                        ex = ex | c
                    s.mkev("loop", h, x=(line0, t, D, st0.ctx, ex if s.nthrow == nthrow else None, H2, FALSE if cont is None else cont.ctx, cond, cont, h))
                s.prefix = prev_prefix + [seq0, t]
                nx2, exit_, brk, rets = onepass(h)
            s.prefix = prev_prefix
        finally:
            s.prefix = prev_prefix
            s.loops.pop()
        if nx is not None and nx2 is not None:
            fixed = {}
            for l, d in locs.items():
                v = st0.st[l]
                if isinstance(v, F) and isinstance(nx2.st.get(l), F):
                    s.reduction(l, v, h, nx2, exit_, brk, t, D)
        elif nx is not None:
            # the body is never completed: accumulators keep their first value
            for o in ([exit_] if exit_ is not None else []) + brk:
                for l in locs:
                    cur = o.st.get(l)
                    v = st0.st.get(l)
                    if isinstance(cur, F) and isinstance(v, F) and cur.k == "acc" and cur.a[0] == l and cur.a[1] == t:
                        o.st[l] = v
        outs = []
        if exit_ is not None:
            outs.append(exit_)
        outs += brk
        for o in outs:
            for l in [l for l in o.st if l > n0]:
                del o.st[l]
        n = s.join(outs)
        fl = Flow(n)
        fl.r = rets
        if n is not None:
            s.gc(n, mark0)
        s.curline = line0
        return fl

    def plist(s, c):
        return [] if c is TRUE or c is FALSE else c.params()

    def loopval(s, h, st0, nx, l, v, t):
        """value of a non-integer variable at the head of iteration t"""
        e = nx.st.get(l)
        if isinstance(v, F) and isinstance(e, F):
            return F("acc", l, t, v)
        if s.valeq(v, e):
            return v
        return s.havocval(h, v)

    def reduction(s, l, v0, h, nx, exit_, brk, t, D):
        """accumulator acc = acc + e over iterations: closed form at the exit"""
        e = nx.st[l]
        acc = h.st.get(l)
        r = None
        if isinstance(acc, F) and acc.k == "acc" and acc.a[0] == l and acc.a[1] == t:
            if e == acc:
                r = v0
            else:
                add = s.addend(e, acc)
                if add is not None:
                    r = F("+", v0, F("sum", t, nx.ctx, add))
        for o in ([exit_] if exit_ is not None else []) + brk:
            cur = o.st.get(l)
            if cur is None:
                continue
            if r is not None and cur == acc and o is exit_:
                o.st[l] = r
            elif isinstance(cur, F) and s.mentions(cur, l, t):
                o.st[l] = F("opq", s.fresh("f", "f"))

    def mentions(s, f, l, t):
        if not isinstance(f, F):
            return False
        if f.k == "acc" and f.a[0] == l and f.a[1] == t:
            return True
        return any(s.mentions(a, l, t) for a in f.a)

    def addend(s, e, acc):
        """e = acc + x with x free of acc; handles guarded sums"""
        l, t = acc.a[0], acc.a[1]
        if e == acc:
            return F("n", Fraction(0))
        if e.k == "+":
            a, b = e.a
            if s.mentions(a, l, t) and not s.mentions(b, l, t):
                r = s.addend(a, acc)
                return None if r is None else fadd(r, b)
            if s.mentions(b, l, t) and not s.mentions(a, l, t):
                r = s.addend(b, acc)
                return None if r is None else fadd(a, r)
            return None
        if e.k == "-":
            a, b = e.a
            if s.mentions(a, l, t) and not s.mentions(b, l, t):
                r = s.addend(a, acc)
                return None if r is None else fadd(r, fneg(b))
            return None
        if e.k == "phi":
            out = []
            for i in range(0, len(e.a), 2):
                r = s.addend(e.a[i + 1], acc)
                if r is None:
                    return None
                out += [e.a[i], r]
            return F("phi", *out)
        return None

    def inner(s, n, mark, heads, t):
        sy = s.syms.get(n)
        if n == t or n in heads:
            return True
        try:
            k = int(n.rsplit("_", 1)[1].rstrip("p"))
        except (ValueError, IndexError):
            return False
        if k <= mark:
            return False
        if sy is None:
            return True
        if sy.kind in ("pred", "data") and t not in sy.deps and not any(hh in sy.deps for hh in heads):
            return False
        return True

    def vartype(s, d):
        return s.dtypes().get(d)

    def dtypes(s):
        if not hasattr(s.P, "_dt"):
            dt = {}
            P = s.P

            def walk(x):
                if isinstance(x, list):
                    for y in x:
                        walk(y)
                elif isinstance(x, dict):
                    if x.get("k") == "decl":
                        for v in x["v"]:
                            if "d" in v and "t" in v:
                                dt[v["d"]] = P.base(v["t"])
                    for y in x.values():
                        if isinstance(y, (dict, list)):
                            walk(y)
            for f in P.fns:
                if f:
                    for p in f["params"]:
                        dt[p["d"]] = P.base(p["t"])
                    walk(f.get("body"))
            P._dt = dt
        return s.P._dt

    def wraphead(s, h, val, ty):
        if not ty or ty.get("k") != "int" or ty["sg"]:
            return val
        if h.ctx.subset(rel(val, ">=", 0)):
            return val
        n = s.fresh("w", "big", s.depsof(val))
        q = Lin.sym(n)
        h.ctx = h.ctx & ((rel(val, ">=", 0) & rel(q, "==", val)) | (rel(val, "<", 0) & rel(val, ">=", -NDIMMAX) & rel(q, "==", val + W64)))
        return q

    def bounds(s, ctx, dlt):
        q = s.fresh("dd", "tmp")
        c = ctx & rel(Lin.sym(q), "==", dlt)
        c = c.keep([q])
        lo = hi = None
        for k in (1, 0, -1, -2, -3):
            if c.subset(parse([q], "%s >= %d" % (q, k))):
                lo = k
                break
        for k in (-1, 0, 1, 2, 3):
            if c.subset(parse([q], "%s <= %d" % (q, k))):
                hi = k
                break
        return (lo, hi)

    def havocint(s, st):
        return Lin.sym(s.fresh("u", "havoc", frozenset(s.loops)))

    def havocval(s, st, v):
        if isinstance(v, Lin):
            return s.havocint(st)
        if isinstance(v, B):
            return s.freshpred(st)
        if isinstance(v, F):
            return F("opq", s.fresh("f", "f", frozenset(s.loops)))
        if isinstance(v, Rec):
            return Rec(v.ty, {k: s.havocval(st, w) for k, w in v.f.items()})
        if isinstance(v, Lam):
            return v
        if isinstance(v, Unk) and v.why == "uninit":
            return v
        return Unk("havoc")

    def gc(s, st, mark):
        """forget symbols created since mark that no live value mentions"""
        if st.ctx is TRUE or st.ctx is FALSE:
            return
        names = [n for n in st.ctx.params() if s.inner(n, mark, (), "")]
        if not names:
            return
        live = set()

        def val(v):
            if isinstance(v, Lin):
                live.update(v.syms())
            elif isinstance(v, B):
                if v.T is not TRUE and v.T is not FALSE:
                    live.update(v.T.params())
            elif isinstance(v, Rec):
                for w in v.f.values():
                    val(w)
            elif isinstance(v, View):
                for w in (v.nr, v.nc, v.m[0], v.m[3], v.root.nr, v.root.nc):
                    val(w)
                if v.ws:
                    val(v.ws[1])
                    val(v.ws[2])
            elif isinstance(v, tuple):
                for w in v:
                    val(w)
            elif isinstance(v, Lam):
                for w in v.cap.values():
                    val(w)
            elif isinstance(v, F):
                for w in v.a:
                    if isinstance(w, (Lin, F)):
                        val(w)
        for v in st.st.values():
            val(v)
        for v in st.fr.values():
            val(v)
        for l in s.saved:
            for v in l:
                val(v)
        live |= set(s.loops)
        dropn = [n for n in names if n not in live]
        if dropn:
            st.ctx = st.ctx.project(dropn)
            if st.ctx.nbasic() > 4:
                st.ctx = st.ctx.coalesce()

    saved = ()
    retref = False
    lastD = None


def fnum(x):
    return F("n", Fraction(x))


ZERO = fnum(0)
ONE = fnum(1)


def isn(f, k=None):
    return f.k == "n" and isinstance(f.a[0], Fraction) and (k is None or f.a[0] == k)


def fadd(a, b):
    if isn(a, 0):
        return b
    if isn(b, 0):
        return a
    if isn(a) and isn(b):
        return fnum(a.a[0] + b.a[0])
    return F("+", a, b)


def fneg(a):
    if isn(a):
        return fnum(-a.a[0])
    if a.k == "neg":
        return a.a[0]
    return F("neg", a)


def fsub(a, b):
    if isn(b, 0):
        return a
    if isn(a) and isn(b):
        return fnum(a.a[0] - b.a[0])
    return F("-", a, b)


def fmul(a, b):
    if isn(a, 1):
        return b
    if isn(b, 1):
        return a
    if isn(a) and isn(b):
        return fnum(a.a[0] * b.a[0])
    return F("*", a, b)


def fdiv(a, b):
    if isn(b, 1):
        return a
    if isn(a) and isn(b) and b.a[0] != 0:
        return fnum(a.a[0] / b.a[0])
    return F("/", a, b)
