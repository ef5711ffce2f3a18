"""Final values of array elements as polynomials in the input elements, and
their comparison with a documented formula.

A polynomial is a list of contributions: coefficient (a Gaussian rational),
factors (scalars and array elements, possibly conjugated or inverted) and the
set of index values for which it occurs.  Loop sums are index sets too, so one
contribution stands for all sizes at once."""
from fractions import Fraction as Fr
from runner import *

ONE = (Fr(1), Fr(0))


class Unknown(Exception):
    pass


class Cond(Unknown):
    """depends on a comparison"""


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cconj(a):
    return (a[0], -a[1])


class El:
    """array element factor"""
    __slots__ = ("root", "r", "c", "conj", "pw", "lab", "time", "fn", "op")

    def __init__(s, root, r, c, conj=False, pw=1, lab=None, time=None, fn=None, op=None):
        s.root, s.r, s.c, s.pw, s.lab, s.time, s.fn = root, r, c, pw, lab, time, fn
        s.op = op
        s.conj = conj and root.et == "c" and fn is None

    def copy(s, **kw):
        n = El(s.root, s.r, s.c, s.conj, s.pw, s.lab, s.time, s.fn, s.op)
        for k, v in kw.items():
            setattr(n, k, v)
        if n.root.et != "c" or n.fn:
            n.conj = False
        return n

    def tag(s):
        return ("e", s.root.name, s.conj, s.pw, s.lab or "", s.fn or "")


class Sc:
    """scalar factor"""
    __slots__ = ("name", "conj", "pw", "real")

    def __init__(s, name, conj=False, pw=1, real=True):
        s.name, s.pw, s.real = name, pw, real
        s.conj = conj and not real

    def tag(s):
        return ("s", s.name, s.conj, s.pw, "", "")


def fconj_(f):
    if isinstance(f, El):
        return f.copy(conj=not f.conj)
    return Sc(f.name, not f.conj, f.pw, f.real)


def finv(f):
    if isinstance(f, El):
        return f.copy(pw=-f.pw)
    return Sc(f.name, f.conj, -f.pw, f.real)


def ren_lin(l, mp):
    return l.subst({a: Lin.sym(b) for a, b in mp.items()}) if mp else l


def ren_set(x, mp):
    if not mp or x is TRUE or x is FALSE:
        return x
    ps = set(x.params())
    m = {a: b for a, b in mp.items() if a in ps}
    return x.rename(m) if m else x


class Con_:
    """one contribution"""
    __slots__ = ("co", "f", "dom", "r", "c", "time", "tmap", "ev")

    def __init__(s, co, f, dom, r=None, c=None, time=(), ev=None):
        s.co, s.f, s.dom, s.r, s.c, s.time, s.ev = co, f, dom, r, c, time, ev


class Ex:
    """expansion of symbolic values"""

    def __init__(s, I):
        s.I = I
        s.n = 0

    def fresh(s, pre):
        s.n += 1
        return "%s_x%d" % (pre, s.n)

    def real(s, v):
        return len(v.a) > 1 and v.a[1] == "real" or not s.I.complex_

    def exp(s, v, mp):
        """list of (coefficient, factors, set)"""
        if isinstance(v, Lin):
            if v.const:
                return [((Fr(v.c), Fr(0)), (), TRUE)] if v.c else []
            raise Unknown("integer value")
        if not isinstance(v, F):
            raise Unknown("value %s" % type(v).__name__)
        k = v.k
        if k == "n":
            return [((Fr(v.a[0]), Fr(0)), (), TRUE)] if v.a[0] else []
        if k == "v":
            return [(ONE, (Sc(v.a[0], False, 1, s.real(v)),), TRUE)]
        if k == "neg":
            return [((-c[0], -c[1]), f, d) for c, f, d in s.exp(v.a[0], mp)]
        if k in ("+", "-"):
            a = s.exp(v.a[0], mp)
            b = s.exp(v.a[1], mp)
            if k == "-":
                b = [((-c[0], -c[1]), f, d) for c, f, d in b]
            return s.lim(a + b)
        if k == "*":
            return s.mul(s.exp(v.a[0], mp), s.exp(v.a[1], mp))
        if k == "/":
            b = s.exp(v.a[1], mp)
            if len(b) != 1 or b[0][2] is not TRUE:
                raise Unknown("division by a sum")
            c, f, d = b[0]
            n = c[0] * c[0] + c[1] * c[1]
            return s.mul(s.exp(v.a[0], mp), [((c[0] / n, -c[1] / n), tuple(finv(x) for x in f), TRUE)])
        if k == "conj":
            return [(cconj(c), tuple(fconj_(x) for x in f), d) for c, f, d in s.exp(v.a[0], mp)]
        if k == "re" or k == "im":
            a = s.exp(v.a[0], mp)
            b = [(cconj(c), tuple(fconj_(x) for x in f), d) for c, f, d in a]
            if k == "re":
                if all(not any(isinstance(x, (El,)) and x.root.et == "c" and not x.fn or isinstance(x, Sc) and not x.real for x in f) and not c[1] for c, f, d in a):
                    return a
                h = (Fr(1, 2), Fr(0))
                return s.lim([(cmul(h, c), f, d) for c, f, d in a + b])
            h = (Fr(0), Fr(-1, 2))
            g = (Fr(0), Fr(1, 2))
            return s.lim([(cmul(h, c), f, d) for c, f, d in a] + [(cmul(g, c), f, d) for c, f, d in b])
        if k == "cplx":
            return s.lim(s.exp(v.a[0], mp) + [(cmul((Fr(0), Fr(1)), c), f, d) for c, f, d in s.exp(v.a[1], mp)])
        if k in ("abs", "abs1"):
            a = s.exp(v.a[0], mp)
            if len(a) == 1 and len(a[0][1]) == 1 and isinstance(a[0][1][0], El) and a[0][0] == ONE and a[0][1][0].pw == 1 and not a[0][1][0].fn:
                fn = k if a[0][1][0].root.et == "c" else "abs"
                return [(ONE, (a[0][1][0].copy(fn=fn),), a[0][2])]
            # |re x| + |im x| is left to the caller
            raise Unknown(k)
        if k == "rd":
            root, r, c = v.a[:3]
            e = v.ev
            return [(ONE, (El(root, ren_lin(r, mp), ren_lin(c, mp), False, 1, None, (e.time, dict(mp)) if e else None),), TRUE)]
        if k == "sum":
            t, S, body = v.a
            mp2 = dict(mp)
            for q in [] if S is TRUE or S is FALSE else S.params():
                sy = s.I.syms.get(q)
                if q == t or sy and (t in sy.deps or sy.kind == "head" and t in sy.deps):
                    mp2[q] = s.fresh("b")
            if t not in mp2:
                mp2[t] = s.fresh("b")
            D = ren_set(S, mp2)
            return [(c, f, d & D) for c, f, d in s.exp(body, mp2)]
        if k == "poly":
            terms, sums = v.a[0].l, v.a[0].ix
            mp2 = dict(mp)
            for n in sums:
                mp2[n] = s.fresh("b")
            out = []
            for c, f, d in terms:
                g = []
                for x in f:
                    if isinstance(x, El):
                        t = x.time
                        if t is not None:
                            t = (t[0], {a: mp2.get(b, b) for a, b in list(t[1].items()) + [(a, a) for a in t[0] if isinstance(a, str) and a not in t[1]]})
                        x = x.copy(r=ren_lin(x.r, mp2), c=ren_lin(x.c, mp2), time=t)
                    g.append(x)
                out.append((c, tuple(g), ren_set(d, mp2)))
            return out
        if k == "phi":
            out = []
            for i in range(0, len(v.a), 2):
                D = ren_set(v.a[i], mp)
                out += [(c, f, d & D) for c, f, d in s.exp(v.a[i + 1], mp)]
            return s.lim(out)
        raise Unknown(k)

    def lim(s, l):
        if len(l) > 200:
            raise Unknown("too many terms")
        return l

    def mul(s, a, b):
        return s.lim([(cmul(c, e), f + g, d & h) for c, f, d in a for e, g, h in b])


def torder(tk, mk, te, me):
    """valuations for which time tk (symbols renamed by mk) is before te (renamed by me)"""
    order = FALSE
    pre = TRUE
    n = 0
    for a, b in zip(tk, te):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return order, True
            x = Lin.sym(mk.get(a, a))
            y = Lin.sym(me.get(b, b))
            order = order | (pre & rel(x, "<", y))
            pre = pre & rel(x, "==", y)
        else:
            if a < b:
                return order | pre, True
            if a > b:
                return order, True
        n += 1
    return order, len(tk) == len(te)


def live(R):
    """argument values for which the routine returns"""
    x = FALSE
    for st, v in R.outs:
        c = st.ctx
        if c is not TRUE and c is not FALSE:
            c = c.project([n for n in c.params() if R.I.syms.get(n) is None or R.I.syms[n].deps or R.I.syms[n].kind in ("iter", "head", "pred")])
        x = x | c
    return x if x is FALSE or x is TRUE else x.coalesce()


class Poly:
    def __init__(s, R, prefer="old"):
        s.R = R
        s.I = R.I
        s.prefer = prefer
        s.ex = Ex(s.I)
        s.W = {}
        for e in s.I.ev:
            if e.k == "W":
                if not e.exact:
                    raise Unknown("inexact")
                s.W.setdefault(e.root.id, []).append(e)
        s.base = live(R)
        s.terms = {}
        s.args = {r.id for r in R.c.roots.values() if r.role not in ("work", "alloc")}
        s.deep = 0
        s.nk = 0

    # ---- names
    def evmap(s, e):
        mp = {}
        ns = set(s.I.plist(e.ctx))
        for l in e.ix:
            ns.update(l.syms())
        ns.update(x for x in e.time if isinstance(x, str))
        for n in ns:
            sy = s.I.syms.get(n)
            if sy is None or sy.kind in ("iter", "head") or sy.deps:
                mp[n] = s.ex.fresh(n)
        return mp

    def same(s, e, mp, r, c):
        x = rel(ren_lin(e.ix[0], mp), "==", r)
        if e.root.rank == 2:
            x = x & rel(ren_lin(e.ix[1], mp), "==", c)
        return x

    def before(s, e, mp, at):
        if at is None:
            return TRUE
        o, ok = torder(e.time, mp, at[0], at[1])
        if not ok:
            raise Unknown("order")
        return o

    def hits(s, e, dom, r, c, time, tmap, which):
        """subset of dom for which e touches element (r,c) before/after time"""
        mp = s.evmap(e)
        if which == "before":
            o, ok = torder(e.time, mp, time, tmap)
        else:
            o, ok = torder(time, tmap, e.time, mp)
        if not ok:
            raise Unknown("order")
        if o is FALSE:
            return FALSE
        x = dom & o & s.same(e, mp, r, c) & ren_set(e.ctx, mp)
        if x is FALSE:
            return FALSE
        return x.project(list(mp.values()))

    # ---- what an event does
    def effect(s, e):
        """("add", terms) or ("set", terms not using the element, terms using it)"""
        t = s.terms.get(e.no)
        if t is not None:
            return t
        root = e.root
        if e.op and e.op[0] in ("*=", "/="):
            a = s.ex.exp(e.op[1], {})
            if e.op[0] == "/=":
                if len(a) != 1 or a[0][2] is not TRUE:
                    raise Unknown("division")
                c, f, d = a[0]
                n = c[0] * c[0] + c[1] * c[1]
                a = [((c[0] / n, -c[1] / n), tuple(finv(x) for x in f), d)]
            t = ("set", [], [(c, f, d, False) for c, f, d in a])
        elif e.op and e.op[0] in ("+=", "-="):
            a = s.ex.exp(e.op[1], {})
            if e.op[0] == "-=":
                a = [((-c[0], -c[1]), f, d) for c, f, d in a]
            t = ("add", a, [])
        elif e.val is None or e.op and e.op[0] == "contract":
            raise Unknown("no value: %s:%s" % e.loc)
        else:
            base = []
            add = []
            for c, f, d in s.ex.exp(e.val, {}):
                own = [x for x in f if isinstance(x, El) and x.root is root and x.pw == 1 and not x.fn]
                if len(own) > 1:
                    # its square: an earlier value like any other
                    add.append((c, f, d))
                    continue
                part = FALSE
                if own:
                    part = s.current(own[0], e, d)
                if part is not FALSE:
                    g = tuple(x for x in f if x is not own[0])
                    base.append((c, g, part, own[0].conj))
                    d = d if part is TRUE else d - part
                    if part is TRUE or (e.ctx & d).empty():
                        continue
                add.append((c, f, d))
            t = ("set", add, base)
        s.terms[e.no] = t
        return t

    # ---- contributions
    def run(s):
        out = {}
        for rid, evs in s.W.items():
            root = evs[0].root
            if root.et in ("i", "b") or rid not in s.args:
                continue
            p, q = Lin.sym("p_"), Lin.sym("q_")
            D = s.base & rel(p, ">=", 0) & rel(p, "<", root.nr) & rel(q, ">=", 0) & rel(q, "<", root.nc)
            out[rid] = s.labels(s.value(root, p, q, D, None))
        return out

    def value(s, root, p, q, D, at):
        """value of element (p,q) at a time (None: at the end) for the valuations in D"""
        evs = s.W.get(root.id, ())
        K = []
        if root.id in s.args:
            K = [Con_(ONE, (El(root, p, q, False, 1, "old"),), D, p, q, None, None)]
        mult = []
        cover = FALSE
        for e in evs:
            mp = s.evmap(e)
            dom = D & s.before(e, mp, at) & s.same(e, mp, p, q) & ren_set(e.ctx, mp)
            if dom is FALSE or dom.empty():
                continue
            kind, add, base = s.effect(e)
            for c, f, d in add:
                x = dom & ren_set(d, mp)
                if x is not FALSE and not x.empty():
                    K.append(Con_(c, tuple(s.renf(y, mp) for y in f), x, p, q, (e.time, mp), e))
            if kind == "set":
                mult.append((e, base))
            if not base and kind == "set":
                cover = cover | dom.project(list(mp.values()))
        if root.id not in s.args:
            # a local array: elements never set have no value
            u = D - cover
            if u is not FALSE and not u.empty():
                raise Unknown("reads an unset element of a local array")
        for e, terms in mult:
            if len(terms) == 1 and terms[0] == (ONE, (), TRUE, False):
                continue
            N = []
            for k in K:
                if k.ev is e:
                    N.append(k)
                    continue
                mp = s.evmap(e)
                o, ok = (TRUE, True) if not k.time else torder(k.time[0], k.time[1], e.time, mp)
                if not ok:
                    raise Unknown("order")
                both = FALSE
                if o is not FALSE:
                    both = k.dom & s.before(e, mp, at) & o & s.same(e, mp, p, q) & ren_set(e.ctx, mp)
                if both is FALSE or both.empty():
                    N.append(k)
                    continue
                part = both.project(list(mp.values()))
                rest = k.dom - part
                if rest is not FALSE and not rest.empty():
                    N.append(Con_(k.co, k.f, rest.coalesce(), p, q, k.time, k.ev))
                for c, f, d, cj in terms:
                    f2 = tuple(s.renf(x, mp) for x in f)
                    kf = tuple(fconj_(x) for x in k.f) if cj else k.f
                    kc = cconj(k.co) if cj else k.co
                    dd = both & ren_set(d, mp)
                    if dd is not FALSE:
                        N.append(Con_(cmul(kc, c), kf + f2, dd, p, q, k.time, k.ev or e))
            K = N
            if len(K) > 150:
                raise Unknown("too many contributions")
        return [k for k in K if k.dom is not FALSE and not k.dom.empty()]

    def renf(s, x, mp):
        if isinstance(x, Sc):
            return x
        t = x.time
        if t is not None:
            m2 = dict(t[1])
            for a in t[0]:
                if isinstance(a, str):
                    b = m2.get(a, a)
                    m2[a] = mp.get(b, b)
            t = (t[0], m2)
        return x.copy(r=ren_lin(x.r, mp), c=ren_lin(x.c, mp), time=t)

    def current(s, x, e, d):
        """valuations where x reads the element that e writes, with no write of it in between"""
        dom = e.ctx & d
        eq = rel(x.r, "==", e.ix[0])
        if e.root.rank == 2:
            eq = eq & rel(x.c, "==", e.ix[1])
        part = TRUE
        if not dom.subset(eq):
            dom = part = dom & eq
            if dom.empty():
                return FALSE
        else:
            part = d
        if x.time is None:
            raise Unknown("time")
        for w in s.W.get(x.root.id, ()):
            mp = s.evmap(w)
            o1, k1 = torder(x.time[0], x.time[1], w.time, mp)
            o2, k2 = torder(w.time, mp, e.time, {})
            if not (k1 and k2):
                raise Unknown("order")
            z = dom & o1 & o2
            if z is FALSE:
                continue
            z = z & ren_set(w.ctx, mp) & s.same(w, mp, e.ix[0], e.ix[1])
            if z is not FALSE and not z.empty():
                # an older value of the element: a factor like any other
                z = z.project(list(mp.values()))
                part = part - z
                if part is FALSE or (dom & part).empty():
                    return FALSE
        return part

    # ---- original, final and intermediate values
    def labels(s, K):
        out = []
        for k in K:
            out += s.label(k)
            if len(out) > 200:
                raise Unknown("too many terms")
        return out

    def label(s, k):
        """factors of modified arrays are original values, final values, or are expanded"""
        for i, x in enumerate(k.f):
            if not isinstance(x, El) or x.lab is not None or x.root.id not in s.W:
                continue
            if x.time is None:
                raise Unknown("time")
            s.nk += 1
            if s.nk > 300:
                raise Unknown("too many reads")
            bef = aft = FALSE
            for w in s.W[x.root.id]:
                bef = bef | s.hits(w, k.dom, x.r, x.c, x.time[0], x.time[1], "before")
                aft = aft | s.hits(w, k.dom, x.r, x.c, x.time[0], x.time[1], "after")
            old = new = FALSE
            if x.root.id in s.args:
                old = k.dom - bef
                new = k.dom - aft
                if s.prefer == "old":
                    new = new - old
                else:
                    old = old - new
            mid = k.dom - old - new
            out = []
            rest = list(k.f)
            for lab, d in (("old", old), ("new", new)):
                if d is FALSE or d.empty():
                    continue
                if lab == "old" and s.prefer == "new":
                    inv = s.scaled(x, d)
                    if inv is not None:
                        rest[i] = x.copy(lab="new")
                        out += s.label(Con_(cmul(k.co, inv[0]), tuple(rest) + inv[1], d, k.r, k.c, k.time, k.ev))
                        continue
                rest[i] = x.copy(lab=lab)
                out += s.label(Con_(k.co, tuple(rest), d, k.r, k.c, k.time, k.ev))
            if mid is not FALSE and not mid.empty():
                inv = s.scaled(x, mid)
                if inv is not None:
                    rest[i] = x.copy(lab="new")
                    out += s.label(Con_(cmul(k.co, inv[0]), tuple(rest) + inv[1], mid, k.r, k.c, k.time, k.ev))
                    return out
                if x.fn:
                    raise Unknown("function of an intermediate value")
                s.deep += 1
                if s.deep > 6:
                    raise Unknown("reads intermediate values in a cycle")
                V = s.value(x.root, x.r, x.c, mid, x.time)
                if x.pw != 1 and len(V) > 1:
                    # disjoint cases only
                    for a in range(len(V)):
                        for b in range(a):
                            z = V[a].dom & V[b].dom
                            if z is not FALSE and not z.empty():
                                raise Unknown("division by a sum")
                for v in V:
                    f, co = v.f, v.co
                    if x.conj:
                        f, co = tuple(fconj_(y) for y in f), cconj(co)
                    if x.pw != 1:
                        n = co[0] * co[0] + co[1] * co[1]
                        f, co = tuple(finv(y) for y in f), (co[0] / n, -co[1] / n)
                    out += s.label(Con_(cmul(k.co, co), tuple(k.f[:i]) + f + tuple(k.f[i + 1:]), v.dom, k.r, k.c, k.time, k.ev))
                    if len(out) > 200:
                        raise Unknown("too many terms")
                s.deep -= 1
            return out
        return [k]

    def scaled(s, x, dom):
        """the final value is this one times scalars, by exactly one later statement"""
        if x.root.id not in s.args or s.prefer != "new" or x.fn:
            return None
        which = []
        for w in s.W[x.root.id]:
            h = s.hits(w, dom, x.r, x.c, x.time[0], x.time[1], "after")
            if h is not FALSE and not h.empty():
                which.append((w, h))
        if len(which) != 1 or not dom.subset(which[0][1]):
            return None
        w = which[0][0]
        kind, add, base = s.effect(w)
        if kind != "set" or add or len(base) != 1:
            return None
        c, f, d, cj = base[0]
        if cj or d is not TRUE or not all(isinstance(y, Sc) for y in f):
            return None
        # twice?
        m1, m2 = s.evmap(w), s.evmap(w)
        o, ok = torder(w.time, m1, w.time, m2)
        if not ok:
            return None
        z = o & ren_set(w.ctx, m1) & ren_set(w.ctx, m2) & rel(ren_lin(w.ix[0], m1), "==", ren_lin(w.ix[0], m2))
        if w.root.rank == 2:
            z = z & rel(ren_lin(w.ix[1], m1), "==", ren_lin(w.ix[1], m2))
        if z is not FALSE and not z.empty():
            return None
        n = c[0] * c[0] + c[1] * c[1]
        g = tuple(finv(y) for y in f)
        if x.conj:
            g = tuple(fconj_(y) for y in g)
        if x.pw != 1:
            g = tuple(finv(y) for y in g)
        return ((c[0] / n, -c[1] / n) if x.pw == 1 else c), g

    # ---- return value
    def ret(s):
        K = []
        for st, v in s.R.outs:
            if v is None:
                continue
            for c, f, d in s.ex.exp(s.I.asf(v, st) if not isinstance(v, F) else v, {}):
                K.append(Con_(c, f, st.ctx & d, L(0), L(0), None, None))
        return s.labels([k for k in K if k.dom is not FALSE and not k.dom.empty()])


def cancel(f):
    """x * 1/x of scalars"""
    f = list(f)
    i = 0
    while i < len(f):
        x = f[i]
        if isinstance(x, Sc):
            for j in range(i + 1, len(f)):
                y = f[j]
                if isinstance(y, Sc) and y.name == x.name and y.conj == x.conj and y.pw == -x.pw:
                    del f[j]
                    del f[i]
                    i -= 1
                    break
        i += 1
    return f


def withdefs(I, dom):
    """the values of min, max, quotient and wrapped symbols are functions of the others"""
    done = set()
    while True:
        n = [z for z in dom.params() if z not in done and I.defs.get(z) is not None]
        if not n:
            return dom
        for z in n:
            done.add(z)
            dom = dom & I.defs[z]
            if dom is FALSE:
                return dom


# ------------------------------------------------------------ canonical form
def canon(I, K, dims):
    """[(signature, coefficient, set over dims, p_, q_, v*_, contribution)]"""
    out = []
    for k in K:
        if k.co == (0, 0):
            continue
        fs = sorted(cancel(k.f), key=lambda x: x.tag())
        sig = tuple(x.tag() for x in fs)
        dom = k.dom & rel("p_", "==", k.r) & rel("q_", "==", k.c) if k.r is not None else k.dom
        if not (k.r == Lin.sym("p_")):
            pass
        els = []
        n = 0
        for x in fs:
            if isinstance(x, El):
                a, b = "va%d_" % n, "vb%d_" % n
                dom = dom & rel(a, "==", x.r) & rel(b, "==", x.c)
                els.append((x.tag(), a, b))
                n += 1
        if dom is FALSE:
            continue
        keep = set(dims) | {"p_", "q_"} | {z for _, a, b in els for z in (a, b)}
        dom = withdefs(I, dom)
        oth = [z for z in dom.params() if z not in keep]
        for z in list(oth):
            sy = I.syms.get(z)
            if sy and sy.kind in ("pred", "data", "havoc", "ap", "opq"):
                y = dom.project([z])
                if not y.subset(dom):
                    raise Cond(z) if sy.kind == "pred" and not sy.deps else Unknown("condition on data %s %s" % (z, sy.kind))
                dom = y
                oth.remove(z)
        if oth:
            # the other symbols must be determined
            mp = {z: z + "u" for z in oth}
            two = dom & dom.rename(mp)
            if not two.empty():
                for z in oth:
                    if not (two & rel(z, "<", z + "u")).empty():
                        raise Unknown("repeated contribution %s" % z)
            dom = dom.project(oth)
        # identical factors commute
        i = 0
        while i < len(els):
            j = i
            while j + 1 < len(els) and els[j + 1][0] == els[i][0]:
                j += 1
            if j - i == 1:
                (_, a, b), (_, a2, b2) = els[i], els[j]
                le = rel(a, "<", a2) | (rel(a, "==", a2) & rel(b, "<=", b2))
                gt = dom - le
                lo = dom & le
                if gt is not FALSE and not gt.empty():
                    sw = gt.rename({a: a2, a2: a, b: b2, b2: b})
                    out.append((sig, k.co, sw.coalesce(), k))
                dom = lo
            elif j - i > 1:
                raise Unknown("third power")
            i = j + 1
        if dom is FALSE or dom.empty():
            continue
        out.append((sig, k.co, dom.coalesce(), k))
    return out


def compare(I, impl, want, dims, base):
    """first difference: (signature, set, impl contributions active, coefficient)"""
    groups = {}
    for sgn, l in ((1, impl), (-1, want)):
        for sig, co, dom, k in l:
            groups.setdefault(sig, []).append(((co[0] * sgn, co[1] * sgn), dom & base, k if sgn > 0 else None, sgn))
    for sig, l in sorted(groups.items(), key=str):
        r = diff(l, 0, None, (Fr(0), Fr(0)), [])
        if r:
            return sig, r[0], r[1], r[2]
    return None


def diff(l, i, X, tot, act):
    if i == len(l):
        if tot != (0, 0) and X is not None and not X.empty():
            return X, act, tot
        return None
    co, dom, k, sgn = l[i]
    Y = dom if X is None else X & dom
    if X is None:
        # everything outside all sets is 0
        r = None
        if dom is not FALSE and not dom.empty():
            r = diff(l, i + 1, dom, (tot[0] + co[0], tot[1] + co[1]), act + [(k, sgn)])
        if r:
            return r
        rest = [(c, d - dom, kk, s) for c, d, kk, s in l[i + 1:]]
        return diff([None] * (i + 1) + rest, i + 1, None, tot, act)
    if Y is not FALSE and not Y.empty():
        r = diff(l, i + 1, Y, (tot[0] + co[0], tot[1] + co[1]), act + [(k, sgn)])
        if r:
            return r
    Z = X - dom
    if Z is not FALSE and not Z.empty():
        return diff(l, i + 1, Z, tot, act)
    return None


# ------------------------------------------------------------ formulas
class TermList:
    def __init__(s, l, ix):
        s.l, s.ix = l, ix


class Marker:
    def __init__(s, time):
        s.time = time


class Num:
    """constant factor"""

    def __init__(s, co):
        s.co = co


def strip(fs, co):
    out = []
    for x in fs:
        if isinstance(x, Num):
            co = cmul(co, x.co)
        else:
            out.append(x)
    return tuple(out), co


class FS:
    """documented formula, of an analysed instance or of a call"""

    def __init__(s, I, name, base, st=None, modified=()):
        s.I, s.base, s.st, s.modified = I, base, st, modified
        s.name = name
        s.terms = {}          # root id -> contributions; "ret"
        s.roots = {}
        s.touched = {}
        s.outs = []
        s.idx = []
        s.complex_ = I.complex_
        s.real = {}

    def ix(s, *ns):
        r = []
        for n in ns:
            q = s.I.fresh("s" + n, "iter", frozenset(s.I.loops) if s.st is not None else frozenset())
            s.idx.append(q)
            r.append(Lin.sym(q))
        return r if len(r) > 1 else r[0]

    def el(s, V, i, j=None, conj=False, inv=False, lab=None, fn=None):
        r, c = V.at(L(i), L(j) if j is not None else None)
        return El(V.root, r, c, conj, -1 if inv else 1, lab, None, fn)

    def sc(s, v, conj=False, inv=False):
        """list of factors of a scalar argument, or None when it is the strong zero"""
        if isinstance(v, Rec) or v is None:
            return None
        if isinstance(v, Lin) and v.const:
            v = F("n", v.c)
        if not isinstance(v, F):
            raise Unknown("scalar argument")
        if v.k == "v":
            f, co = (Sc(v.a[0], False, 1, len(v.a) > 1 and v.a[1] == "real" or not s.complex_),), ONE
        else:
            l = Ex(s.I).exp(v, {})
            if not l:
                l = [((Fr(0), Fr(0)), (), TRUE)]
            if len(l) != 1 or l[0][2] is not TRUE:
                raise Unknown("scalar argument is a sum")
            co, f, d = l[0]
        if conj:
            f, co = tuple(fconj_(x) for x in f), cconj(co)
        if inv:
            n = co[0] * co[0] + co[1] * co[1]
            f, co = tuple(finv(x) for x in f), (co[0] / n, -co[1] / n)
        return f if co == ONE else f + (Num(co),)

    def inside(s, V, i, j=None):
        d = rel(i, ">=", 0) & rel(i, "<", V.nr)
        if j is not None:
            d = d & rel(j, ">=", 0) & rel(j, "<", V.nc)
        return d

    def out(s, V, i, j, region=TRUE):
        """elements (i,j) of V in region are defined by the terms that follow; all others keep their value"""
        s.roots[V.root.id] = V.root
        r, c = V.at(i, j)
        dom = s.base & s.inside(V, i, j if V.rank == 2 else None) & region
        s.touched.setdefault(V.root.id, []).append((r, c, dom))
        s.cur = (V, r, c, dom)
        s.outs.append((V, r, c, dom, (i, j), []))

    def add(s, fs, dom=TRUE, co=1):
        V, r, c, d = s.cur
        f, k = strip(fs, (Fr(co), Fr(0)))
        s.outs[-1][5].append((k, f, dom))
        s.terms.setdefault(V.root.id, []).append(Con_(k, f, d & dom, r, c))

    def ret(s, fs, dom=TRUE, co=1):
        f, k = strip(fs, (Fr(co), Fr(0)))
        s.terms.setdefault("ret", []).append(Con_(k, f, s.base & dom, L(0), L(0)))

    # ---- of the analysed instance
    def settle(s, k):
        return Con_(k.co, tuple(x.copy(lab="old") if isinstance(x, El) and x.lab is None and x.root.id in s.modified else x for x in k.f), k.dom, k.r, k.c, k.time, k.ev)

    def finish(s, rid):
        """contributions of one array, the untouched part included"""
        root = s.roots[rid]
        p, q = Lin.sym("p_"), Lin.sym("q_")
        D = s.base & rel(p, ">=", 0) & rel(p, "<", root.nr) & rel(q, ">=", 0) & rel(q, "<", root.nc)
        K = [s.settle(k) for k in s.terms.get(rid, [])]
        for r, c, dom in s.touched.get(rid, []):
            z = dom & rel(p, "==", r) & rel(q, "==", c)
            D = D - z.project([n for n in z.params() if n in s.idx])
        if D is not FALSE and not D.empty():
            K.append(Con_(ONE, (El(root, p, q, False, 1, "old"),), D, p, q))
        return K

    # ---- of a call
    def emit(s, f):
        """the call as reads followed by writes"""
        I, st = s.I, s.st
        e0 = I.mkev("N", st, x=f["n"])
        ws = []
        new = []

        def tm(x):
            if not isinstance(x, El):
                return x
            if x.time is not None:
                return x
            y = x.copy(lab=None, time=(e0.time, {}))
            if x.lab == "new":
                new.append(y)
            return y
        for V, r, c, dom, ij, terms in s.outs:
            if dom is FALSE or dom.empty():
                continue
            l = [(k, tuple(tm(x) for x in g), d) for k, g, d in terms]
            own = {n for q in ij if q is not None for n in q.syms()}
            v = F("poly", TermList(l, [n for n in s.idx if n not in own]))
            I.mkev("W", st, root=V.root, ix=(r, c), view=(V, ij[0], ij[1]), ctx=dom, val=v, x="formula " + f["n"])
            V.root.ver += 1
        e1 = I.mkev("N", st, x=f["n"])
        for y in new:
            y.time = (e1.time, {})
        if "ret" in s.terms:
            return F("poly", TermList([(k.co, tuple(tm(x) for x in k.f), k.dom) for k in s.terms["ret"]], list(s.idx)))
        return None


FORM = {}


def formula(names, sig, **kw):
    rx = re.compile(sig + r"o?\Z")

    def d(fn):
        for n in names.split():
            FORM.setdefault(n, []).append((rx, fn, kw))
        return fn
    return d


def find_formula(f):
    for rx, fn, kw in FORM.get(f["n"], ()):
        if rx.match(f["_letters"]):
            return fn, kw
    return None


import re


def sigtext(sig):
    o = []
    n = 0
    for k, name, cj, pw, lab, fn in sig:
        t = name
        if k == "e":
            t = "%s(.,.)" % name
        if lab:
            t = lab + " " + t
        if fn:
            t = "%s(%s)" % (fn, t)
        if cj:
            t = "conj(%s)" % t
        if pw < 0:
            t = "1/" + t
        o.append(t)
    return " * ".join(o) or "1"


def check_formula(P, f, sp, opts, seconds, pid="C05", fuel=150000):
    """returns dict(state, terms, found)"""
    res = {"state": "ok", "terms": 0, "found": [], "arrays": 0, "equal": 0}
    fm = find_formula(f)
    if fm is None:
        res["state"] = "noformula"
        return res
    fn, kw = fm
    R = prepare(P, f, sp, opts, fuel=fuel)
    for n, sy in R.I.syms.items():
        if sy.kind == "dim":
            R.st.ctx = R.st.ctx & rel(n, "<=", 1000000000)
    R.ctx0 = R.st.ctx
    R.I.maxphi = 400
    R.I.callhook = lambda ff, lvs, st, e: formula_call(R.I, f, kw, ff, lvs, st, e)
    execute(R, seconds)
    if R.status != "ok":
        res["state"] = R.status
        return res
    try:
        judge_all(R, f, fn, kw, res, pid, {})
    except Unknown as x:
        res["state"] = "unknown: %s" % x
    except IslError:
        res["state"] = "isl"
    return res


def substitute(I, K, asg):
    """contributions under an assignment of comparisons"""
    if not asg:
        return K
    val = {}
    cx = TRUE
    for z, v in asg.items():
        cx = cx & rel(z, "==", v)
        key = I.syms[z].x
        if v and isinstance(key, tuple) and len(key) == 4 and key[0] == "cmp" and key[1] == "==":
            for x, y in ((key[2], key[3]), (key[3], key[2])):
                if x.k == "v" and y.k == "n":
                    if val.get(x.a[0], y.a[0]) != y.a[0]:
                        return None
                    val[x.a[0]] = y.a[0]
    out = []
    for k in K:
        d = k.dom & cx
        if d is FALSE or d.empty():
            continue
        d = d.project([z for z in asg if z in d.params()])
        co, f = k.co, []
        for x in k.f:
            if isinstance(x, Sc) and x.name in val:
                v = Fr(val[x.name])
                if not v and x.pw < 0:
                    return None
                co = cmul(co, (v ** x.pw, Fr(0)))
            else:
                f.append(x)
        if co != (0, 0):
            out.append(Con_(co, tuple(f), d, k.r, k.c, k.time, k.ev))
    return out


def judge_all(R, f, fn, kw, res, pid, asg):
    poly = Poly(R, kw.get("prefer", "old"))
    cons = poly.run()
    fs = FS(R.I, f["n"], poly.base, None, set(poly.W))
    args = list(R.args)
    n = fn.__code__.co_argcount - 1
    fn(fs, *(args + [None] * n)[:n])
    dims = [n for n, sy in R.I.syms.items() if sy.kind in ("dim", "opq")]
    roots = {r.id: r for r in R.c.roots.values()}
    jobs = []
    for rid in set(fs.touched) | {r for r in cons if cons[r]}:
        root = roots.get(rid)
        if root is None or root.role == "work":
            continue
        K = cons.get(rid)
        fs.roots[rid] = root
        if K is None:
            p, q = Lin.sym("p_"), Lin.sym("q_")
            D = poly.base & rel(p, ">=", 0) & rel(p, "<", root.nr) & rel(q, ">=", 0) & rel(q, "<", root.nc)
            K = [Con_(ONE, (El(root, p, q, False, 1, "old"),), D, p, q)]
        jobs.append((root, K, fs.finish(rid)))
    if "ret" in fs.terms:
        jobs.append((None, poly.ret(), [fs.settle(k) for k in fs.terms["ret"]]))
    for root, K, Wt in jobs:
        equal(R, poly, K, Wt, dims, root, res, pid)


def equal(R, poly, K, Wt, dims, root, res, pid, **kw):
    todo = [{}]
    while todo:
        asg = todo.pop()
        a = substitute(R.I, K, asg)
        b = substitute(R.I, Wt, asg)
        if a is None or b is None:
            continue
        try:
            a, b = canon(R.I, a, dims), canon(R.I, b, dims)
        except Cond as x:
            z = x.args[0]
            if len(asg) >= 4 or z in asg:
                raise Unknown("condition on data")
            todo += [{**asg, z: 0}, {**asg, z: 1}]
            continue
        judge_formula(R, poly, a, b, dims, root, res, pid, **kw)


def formula_call(I, f, kw, ff, lvs, st, e):
    """formula of a called routine: the recursive call, and what the spec names"""
    if not ff.get("root") or ff["n"] != f["n"] and ff["n"] not in kw.get("calls", ()):
        return NotImplemented
    if "_letters" not in ff:
        if SP.find(I.P, ff) is None:
            return NotImplemented
    fm = find_formula(ff)
    if fm is None:
        return NotImplemented
    args = []
    for p, l, c in zip(ff["params"], lvs, ff["_letters"]):
        v = I.read(st, l)
        if c in "OUSDFVNH":
            ov = SP.optval(v)
            if ov is None:
                ty = I.P.base(p["t"])
                if ty["k"] == "rec":
                    ov = SP.OPV.get(ty["name"].split("::")[-1])
            if ov is None:
                return NotImplemented
            v = ov
        elif c in "mv" and not isinstance(v, View):
            return NotImplemented
        args.append(v)
    fn = fm[0]
    n = fn.__code__.co_argcount - 1
    fs = FS(I, ff["n"], st.ctx, st)
    try:
        fn(fs, *(args + [None] * n)[:n])
    except Unknown:
        return NotImplemented if ff["n"] != f["n"] else I.hv(I.P.T(ff["ret"]), st)
    r = fs.emit(ff)
    return r if r is not None else I.hv(I.P.T(ff["ret"]), st)


def judge_formula(R, poly, a, b, dims, root, res, pid, rule="formula", text="differs from the documented formula in"):
    res["terms"] += len(a) + len(b)
    res["arrays"] += 1
    d = compare(R.I, a, b, dims, TRUE)
    if d is None:
        res["equal"] += 1
        return
    sig, X, act, tot = d
    Y = X.project([n for n in X.params() if n not in dims])
    r, w = definite(R.I, Y, preds=False)
    if r != "yes":
        res["state"] = "unknown: no witness"
        return
    evs = [k.ev for k, s in act if k is not None and k.ev is not None]
    e = evs[-1] if evs else SimpleEv(R.f, R.I)
    sm = {}
    Z = X
    for n, v in (w or {}).items():
        Z = Z & rel(n, "==", v)
    try:
        sm = Z.sample()
    except Exception:
        pass
    where_ = "return value" if root is None else "%s%s" % (root.name, "(%s,%s)" % (sm.get("p_", "?"), sm.get("q_", "?")) if root.rank == 2 else "[%s]" % sm.get("p_", "?"))
    k = 0
    idx = []
    for t in sig:
        if t[0] == "e":
            idx.append("%s(%s,%s)" % (t[1], sm.get("va%d_" % k, 0), sm.get("vb%d_" % k, 0)))
            k += 1
    extra = "%s%s" % (tot[0], "" if not tot[1] else "%+di" % tot[1])
    inst = "%s[%s]" % (R.f["n"], optname(R.f, R.opts))
    wt = witness(R.I, w)
    res["found"].append(Finding(pid, rule, e, "%s: %s %s the term %s (elements %s): coefficient off by %s%s" % (inst, where_, text, sigtext(sig), ", ".join(idx), extra, " when " + wt if wt else ""), "%s/%s" % (R.f["n"], rule)))


class SimpleEv:
    exact = True

    def __init__(s, f, I):
        s.loc = (I.P.file(f), f["line"])
        s.fn = f


import spec_formula  # noqa
