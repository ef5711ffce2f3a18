"""Abstract values of the array analysis: affine integers over symbols,
Boolean conditions as integer sets, symbolic scalar expressions, views."""
from isl import parse, TRUE, FALSE, Set


class Lin:
    """affine integer expression over symbols"""
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        self.t = t
        self.c = c

    @staticmethod
    def sym(s, k=1):
        return Lin(((s, k),), 0)

    def d(self):
        return dict(self.t)

    @staticmethod
    def mk(d, c):
        return Lin(tuple(sorted((s, k) for s, k in d.items() if k)), c)

    def __add__(a, b):
        if isinstance(b, int):
            return Lin(a.t, a.c + b)
        if not b.t:
            return Lin(a.t, a.c + b.c)
        if not a.t:
            return Lin(b.t, a.c + b.c)
        d = dict(a.t)
        for s, k in b.t:
            d[s] = d.get(s, 0) + k
        return Lin.mk(d, a.c + b.c)

    def scale(a, k):
        if k == 0:
            return Lin()
        return Lin(tuple((s, c * k) for s, c in a.t), a.c * k)

    def __neg__(a):
        return a.scale(-1)

    def __sub__(a, b):
        if isinstance(b, int):
            return Lin(a.t, a.c - b)
        return a + b.scale(-1)

    @property
    def const(a):
        return not a.t

    def syms(a):
        return [s for s, _ in a.t]

    def subst(a, mp):
        r = Lin((), a.c)
        for s, k in a.t:
            v = mp.get(s)
            r = r + (Lin(((s, k),), 0) if v is None else v.scale(k))
        return r

    def __eq__(a, b):
        return isinstance(b, Lin) and a.t == b.t and a.c == b.c

    def __hash__(a):
        return hash((a.t, a.c))

    def __str__(a):
        o = []
        for s, k in a.t:
            if k == 1:
                o.append("+" + s)
            elif k == -1:
                o.append("-" + s)
            else:
                o.append("%+d%s" % (k, s))
        if a.c or not o:
            o.append("%+d" % a.c)
        r = "".join(o)
        return r[1:] if r[0] == "+" else r

    __repr__ = __str__


def L(x):
    return x if isinstance(x, Lin) else (Lin.sym(x) if isinstance(x, str) else Lin((), x))


OPS = {"<": "<", "<=": "<=", ">": ">", ">=": ">=", "==": "="}


def rel(a, op, b):
    """set of symbol valuations where a op b"""
    a = L(a)
    b = L(b)
    x = a - b
    if op == "!=":
        if x.const:
            return TRUE if x.c != 0 else FALSE
        n = x.syms()
        return parse(n, "%s < 0 or %s > 0" % (x, x))
    if x.const:
        return TRUE if {"<": x.c < 0, "<=": x.c <= 0, ">": x.c > 0, ">=": x.c >= 0, "==": x.c == 0}[op] else FALSE
    return parse(x.syms(), "%s %s 0" % (x, OPS[op]))


class B:
    """Boolean abstract value: the set where it is true"""
    __slots__ = ("T", "_F")

    def __init__(self, T, F=None):
        self.T = T
        self._F = F

    @property
    def F(self):
        if self._F is None:
            self._F = ~self.T
        return self._F

    def __eq__(a, b):
        return isinstance(b, B) and (a.T is b.T or (a.T is not TRUE and b.T is not TRUE and a.T is not FALSE and b.T is not FALSE and a.T.equal(b.T)))

    __hash__ = None


USES = []                        # when switched on: element reads used other than through real()


class F:
    """symbolic floating point value"""
    __slots__ = ("k", "a", "sz", "_h", "ev")
    watch = False

    def __init__(self, k, *a):
        self.ev = None            # the event of an element read
        self.k = k
        self.a = a
        sz = 1
        for x in a:
            if isinstance(x, F):
                sz += x.sz
                if x.ev is not None:
                    x.ev.used = True
                if F.watch and x.k == "rd" and x.ev is not None and k not in ("re", "conj", "phi", "sum", "poly"):
                    USES.append((k, x.ev))
        self.sz = sz
        self._h = None

    def __eq__(x, y):
        return x is y or (isinstance(y, F) and x.k == y.k and x.sz == y.sz and hash(x) == hash(y) and x.a == y.a)

    def __hash__(x):
        if x._h is None:
            x._h = hash((x.k,) + tuple(id(z) if isinstance(z, Set) else (hash(z)) for z in x.a))
        return x._h

    def __repr__(x):
        if x.k in ("v", "n", "opq"):
            return str(x.a[0])
        if x.k == "rd":
            return "%s[%s,%s]" % (x.a[0].name, x.a[1], x.a[2])
        if x.k in "+-*/":
            return "(%r %s %r)" % (x.a[0], x.k, x.a[1])
        return "%s(%s)" % (x.k, ", ".join(map(str, x.a)))


def use(*l):
    """these values matter"""
    for x in l:
        if isinstance(x, F) and x.ev is not None:
            x.ev.used = True


class Root:
    """an array object"""
    _n = 0

    def __init__(self, name, nr, nc, role="in", et="f", rank=2, **kw):
        Root._n += 1
        self.id = Root._n
        self.name = name
        self.nr = nr
        self.nc = nc
        self.role = role          # in, out, inout, work, alloc
        self.et = et              # f, c (complex), i, b
        self.rank = rank
        self.parent = None        # (root, off Lin, size Lin): carved out of it
        self.range = None         # value range of integer elements
        self.ver = 0
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s>" % self.name


class View:
    """rectangular or vector view: element (i,j) is root element
    (r0 + ri*i + rj*j, c0 + ci*i + cj*j)"""
    __slots__ = ("root", "rank", "nr", "nc", "m", "et", "ws", "rowmajor")

    def __init__(self, root, rank, nr, nc, m, et=None, ws=None, rowmajor=False):
        self.root = root
        self.rank = rank
        self.nr = nr
        self.nc = nc
        self.m = m              # (r0, ri, rj, c0, ci, cj)
        self.et = et or root.et
        self.ws = ws            # workspace accounting: (base root, offset Lin, capacity Lin)
        self.rowmajor = rowmajor

    def at(self, i, j=None):
        r0, ri, rj, c0, ci, cj = self.m
        r = r0 + i.scale(ri)
        c = c0 + i.scale(ci)
        if j is not None:
            r = r + j.scale(rj)
            c = c + j.scale(cj)
        return r, c

    def slice(self, i0, n, j0=None, k=None):
        r, c = self.at(i0, j0)
        m = self.m
        return View(self.root, self.rank, n, k if k is not None else self.nc, (r, m[1], m[2], c, m[4], m[5]), self.et, None, self.rowmajor)

    def row(self, i, j0, n):
        r, c = self.at(i, j0)
        m = self.m
        return View(self.root, 1, n, L(1), (r, m[2], 0, c, m[5], 0), self.et)

    def col(self, j, i0, n):
        r, c = self.at(i0, j)
        m = self.m
        return View(self.root, 1, n, L(1), (r, m[1], 0, c, m[4], 0), self.et)

    def transpose(self):
        m = self.m
        return View(self.root, 2, self.nc, self.nr, (m[0], m[2], m[1], m[3], m[5], m[4]), self.et, None, not self.rowmajor)

    def key(self):
        return (self.root.id, self.rank, self.nr, self.nc, self.m)

    def __eq__(a, b):
        return isinstance(b, View) and a.key() == b.key() and a.ws == b.ws

    def __hash__(a):
        return hash(a.key())

    def __repr__(self):
        return "%s{%s x %s @(%s,%s)}" % (self.root.name, self.nr, self.nc, self.m[0], self.m[3])


class Rec:
    """record value (immutable: fields are replaced, not mutated)"""
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f

    def set(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Rec(self.ty, g)

    def get(self, k):
        return self.f.get(k)

    def __eq__(a, b):
        return isinstance(b, Rec) and a.ty == b.ty and a.f == b.f

    __hash__ = None

    def __repr__(self):
        return "%s%r" % (self.ty, self.f)


class Lam:
    __slots__ = ("op", "cap", "id")

    def __init__(self, op, cap, id):
        self.op = op
        self.cap = cap
        self.id = id

    def __eq__(a, b):
        return isinstance(b, Lam) and a.id == b.id


class Unk:
    """unknown value"""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __eq__(a, b):
        return a is b

    __hash__ = object.__hash__

    def __repr__(self):
        return "Unk(%s)" % self.why
