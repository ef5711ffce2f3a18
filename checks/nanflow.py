"""Abstract interpretation of the norm and scan routines with one poisoned
element: floating-point values are {number, NaN (in the real or only in the
imaginary part), Inf}; the first read of any element of the operand may be the
poisoned one; states are finite, loops are iterated to the fixpoint."""
from limits import walk, LOOPS

KEEP = ("abs", "abs1", "fabs", "norm", "sqrt", "square", "pow", "hypot", "lapy2", "lapy3", "real_part_abs")
CMP = ("==", "!=", "<", ">", "<=", ">=")
CAST = ("cast", "copy", "paren")
ARITH = ("+", "-", "*", "/")


class Undecided(Exception):
    pass


class S:
    """one abstract state"""
    __slots__ = ("env", "cache", "seen", "nests", "doubt", "pidx", "wn", "picked")

    def __init__(s):
        s.env, s.cache = {}, {}
        s.seen = s.doubt = s.picked = False
        s.nests = s.pidx = s.wn = frozenset()

    def copy(s):
        t = S()
        t.env, t.cache = dict(s.env), dict(s.cache)
        t.seen, t.doubt, t.picked, t.nests, t.pidx, t.wn = s.seen, s.doubt, s.picked, s.nests, s.pidx, s.wn
        return t

    def key(s):
        return (frozenset(s.env.items()), frozenset(s.cache.items()), s.seen, s.doubt, s.picked, s.nests, s.pidx, s.wn)


def uniq(l):
    out = {}
    for x in l:
        k = x.key() if isinstance(x, S) else (x[0], x[1].key())
        out.setdefault(k, x)
    return list(out.values())


class Flow:
    def __init__(s, P, poison="nan", imag=True, fields=None):
        s.P, s.poison, s.imag = P, poison, imag
        s.fields = fields or {}
        s.depth = 0
        s.nest = ()
        s.steps = 0
        s.frames = 0

    # ---- types and names
    def kind(s, t):
        ty = s.P.base(t)
        return "flt" if ty["k"] == "float" or ty.get("name") == "std::complex" else ty["k"]

    def fn(s, x):
        return s.P.fns[x["f"]] if isinstance(x.get("f"), int) else None

    # ---- values: "num", "nan", "nani", "inf", ("b",x), ("t",text), ("v",root,text), ("l",id), None
    def fold(s, vs):
        vs = [v for v in vs if isinstance(v, str)]
        for q in ("nan", "nani", "inf", "infi"):
            if q in vs:
                return q
        return "num"

    def text(s, v):
        if v is None:
            return "?%d" % s.uid()
        if isinstance(v, tuple):
            return "%s" % (v[-1],) if v[0] != "b" else str(int(v[1]))
        return v

    def uid(s):
        s.frames += 1
        return s.frames

    def setint(s, st, d, v):
        """variable d gets a new integer value: everything that mentions it is stale"""
        m = "#%s#" % d
        for k in [k for k in st.cache if m in k]:
            del st.cache[k]
        pidx = set(q for q in st.pidx if m not in q)
        for k, w in list(st.env.items()):
            if isinstance(w, tuple) and w[0] in "tv" and m in w[-1] and k != d:
                if w[0] == "t":
                    # keep what is known of that variable under its own name
                    own = "#%s#" % k
                    if w[-1] in st.pidx:
                        pidx.add(own)
                    st.env[k] = ("t", own)
                else:
                    st.env[k] = ("v", w[1], "?%s" % k)
        own = "#%s#" % d
        if isinstance(v, tuple) and v[0] == "t":
            if m in v[1] or len(v[1]) > 80:
                st.env[d] = ("t", own)
            else:
                if v[1] in st.pidx:
                    pidx.add(own)
                st.env[d] = v
        else:
            st.env[d] = ("t", own)
        st.pidx = frozenset(pidx)

    # ---- expressions: list of (value, state)
    def ev(s, x, st):
        s.steps += 1
        if s.steps > 400000:
            raise Undecided("too many states")
        if x is None:
            return [(None, st)]
        k = x.get("k")
        if k in CAST:
            out = s.ev(x["e"], st)
            if "t" in x and s.kind(x["t"]) == "flt":
                out = [(v if isinstance(v, str) else "num", t) for v, t in out]
            return out
        if k == "c":
            ty = s.kind(x["t"]) if "t" in x else ""
            if ty == "bool":
                return [(("b", str(x["v"]) in ("1", "true", "True")), st)]
            if ty == "flt":
                return [("num", st)]
            return [(("t", str(x["v"])), st)]
        if k == "f":
            return [("num", st)]
        if k == "ref":
            d = x.get("d")
            if d in st.env:
                v = st.env[d]
                if isinstance(v, tuple) and v[0] == "r":
                    return [(st.env.get(v[1], "num"), st)]
                return [(v, st)]
            if "t" in x and s.kind(x["t"]) == "flt":
                return [("num", st)]
            if "t" in x and s.kind(x["t"]) in ("int", "enum"):
                return [(("t", "#%s#" % d), st)]
            return [(None, st)]
        if k == "lambda":
            return [(("l", x.get("id")), st)]
        if k in ("ctor", "list", "init", "initlist"):
            a = x.get("a") or []
            out = [([], st)]
            for y in a:
                out = [(l + [v], u) for l, t in out for v, u in s.ev(y, t)]
            if "t" in x and s.kind(x["t"]) == "flt":
                return [(s.fold(l), t) for l, t in out]
            if len(a) == 1:
                return [(l[0], t) for l, t in out]
            return [(("p", "{" + ",".join(s.text(v) for v in l) + "}"), t) for l, t in out]
        if k == "mem":
            if x.get("f") in s.fields:
                return [(s.fields[x["f"]], st)]
            if "t" in x and s.kind(x["t"]) == "flt":
                return [("num", st)]
            return [(None, st)]
        if k == "un":
            op = x["op"]
            if op in ("++", "--"):
                return s.assign(x["e"], [(None, st)])
            out = []
            for v, t in s.ev(x["e"], st):
                if op == "!":
                    v = ("b", not v[1]) if isinstance(v, tuple) and v[0] == "b" else None
                elif op == "-" and isinstance(v, tuple):
                    v = ("t", "-" + s.text(v))
                elif op not in ("-", "+", "*", "&"):
                    v = None
                out.append((v, t))
            return out
        if k == "cond":
            return [r for v, t in s.ev(x["c"], st) for br in s.branches(v) for r in s.ev(x["a"] if br else x["b"], t)]
        if k == "bin":
            return s.binary(x, x["op"], x["a"], x["b"], st)
        if k == "call":
            return s.call(x, st)
        if k in ("idx",):
            return s.read(x, x["b"], [x["i"]], st)
        # anything else: a value of its type
        subs = [st]
        if "t" in x and s.kind(x["t"]) == "flt":
            return [("num", st)]
        return [(None, st)]

    def branches(s, v):
        if isinstance(v, tuple) and v[0] == "b":
            return (v[1],)
        if isinstance(v, tuple) and v[0] == "t" and v[1].lstrip("-").isdigit():
            return (v[1] != "0",)
        return (True, False)

    def binary(s, x, op, a, b, st):
        if op == "=":
            r = s.ev(b, st)
            d = s.intvar(a)
            if d is not None and s.mentions(b, d):
                # a step of a counter: a new value, whatever the old one was
                r = [(None, t) for _, t in r]
            return s.assign(a, r)
        if op.endswith("=") and op not in CMP:
            out = []
            step = s.intvar(a) is not None
            for v, t in s.ev(a, st):
                for w, u in s.ev(b, t):
                    out += s.assign(a, [(None if step else s.arith(op[:-1], v, w, a, b), u)])
            return out
        if op == ",":
            return [r for _, t in s.ev(a, st) for r in s.ev(b, t)]
        if op in ("&&", "||"):
            out = []
            for v, t in s.ev(a, st):
                for br in s.branches(v):
                    if br == (op == "||"):
                        out.append((("b", br), t))
                    else:
                        out += s.ev(b, t)
            return out
        out = []
        for v, t in s.ev(a, st):
            for w, u in s.ev(b, t):
                if op in CMP:
                    r = s.compare(op, v, w)
                    if r is None and isinstance(v, tuple) and isinstance(w, tuple) and v[0] == w[0] == "t":
                        out += s.fact(op, v[1], w[1], u)
                    else:
                        out.append((r, u))
                else:
                    out.append((s.arith(op, v, w, a, b), u))
        return out

    def intvar(s, x):
        while isinstance(x, dict) and x.get("k") in CAST:
            x = x["e"]
        if isinstance(x, dict) and x.get("k") == "ref" and "t" in x and s.kind(x["t"]) == "int":
            return x.get("d")
        return None

    def mentions(s, x, d):
        return any(y.get("k") == "ref" and y.get("d") == d for y in walk(x))

    def fact(s, op, a, b, st):
        """an undecided comparison of integers: both ways, and remembered until one of them changes"""
        neg = op in ("!=", ">=", "<=")
        if op in ("<=", ">"):
            a, b = b, a
        if op in ("==", "!="):
            a, b = sorted((a, b))
        k = "c:%s%s%s" % (a, "==" if op in ("==", "!=") else "<", b)
        if k in st.cache:
            return [(("b", st.cache[k] != neg), st)]
        out = []
        for r in (True, False):
            u = st.copy()
            u.cache[k] = r
            out.append((("b", r != neg), u))
        return out

    def compare(s, op, v, w):
        if isinstance(v, str) or isinstance(w, str):
            if v in ("nan", "nani") or w in ("nan", "nani"):
                return ("b", op == "!=")
            return None
        if isinstance(v, tuple) and isinstance(w, tuple):
            if v[0] == w[0] == "b":
                if op in ("==", "!="):
                    return ("b", (v[1] == w[1]) == (op == "=="))
                return None
            a, b = s.text(v), s.text(w)
            if a == b:
                return ("b", op in ("==", "<=", ">="))
            if a.lstrip("-").isdigit() and b.lstrip("-").isdigit():
                return ("b", eval("%d %s %d" % (int(a), op, int(b))))
        return None

    def arith(s, op, v, w, a, b):
        if isinstance(v, str) or isinstance(w, str):
            r = s.fold([v, w])
            if r == "nani" and op in ("*", "/") and "t" in a and "t" in b and s.P.base(a["t"]).get("name") == s.P.base(b["t"]).get("name") == "std::complex":
                return "nan"
            if r == "inf" and op not in ("+",):
                return "inf"
            return r
        if isinstance(v, tuple) and isinstance(w, tuple) and v[0] in "tb" and w[0] in "tb":
            return ("t", "(%s%s%s)" % (s.text(v), op, s.text(w)))
        return None

    # ---- arrays
    def isview(s, v):
        return isinstance(v, tuple) and v[0] == "v"

    def elemkey(s, x, base, ix, st):
        """[(root, key, state)] of an element access"""
        out = []
        for v, t in s.ev(base, st):
            cur = [([], t)]
            for y in ix:
                cur = [(l + [w], u) for l, t2 in cur for w, u in s.ev(y, t2)]
            for l, u in cur:
                if not s.isview(v):
                    b = base
                    while isinstance(b, dict) and b.get("k") in CAST:
                        b = b["e"]
                    v2 = ("v", "w%s;" % b.get("d", "?"), "")
                else:
                    v2 = v
                i = ",".join(s.text(q) for q in l)
                out.append((v2[1], "%s%s[%s]" % (v2[1], v2[2], i), i, u))
        return out

    def read(s, x, base, ix, st):
        out = []
        for root, key, i, t in s.elemkey(x, base, ix, st):
            if key in t.cache:
                out.append((t.cache[key], t))
                continue
            if root.startswith("w"):
                u = t.copy()
                u.cache[key] = "num"
                out.append(("num", u))
                if root in t.wn:
                    u = t.copy()
                    u.cache[key] = "nan"
                    u.picked = True
                    out.append(("nan", u))
                continue
            u = t.copy()
            u.cache[key] = "num"
            if not u.seen and s.nest:
                u.nests = u.nests | {s.nest[0]}
            elif not u.seen:
                u.nests = u.nests | {"top"}
            out.append(("num", u))
            if not t.seen:
                cx = "t" in x and s.P.base(x["t"]).get("name") == "std::complex"
                for pv in ([s.poison, s.poison + "i"] if cx and s.imag else [s.poison]):
                    u = t.copy()
                    u.seen = True
                    u.cache[key] = pv
                    u.pidx = frozenset([i])
                    u.doubt = bool(t.nests - {s.nest[0] if s.nest else "top"})
                    out.append((pv, u))
        return out

    def assign(s, lhs, vals):
        while isinstance(lhs, dict) and lhs.get("k") in CAST:
            lhs = lhs["e"]
        out = []
        for v, st in vals:
            k = lhs.get("k")
            if k == "ref":
                d = lhs.get("d")
                r = st.env.get(d)
                if isinstance(r, tuple) and r[0] == "r":
                    d = r[1]
                t = st.copy()
                kd = s.kind(lhs["t"]) if "t" in lhs else ""
                if kd == "flt":
                    t.env[d] = v if isinstance(v, str) else "num"
                elif kd == "bool":
                    t.env[d] = v if isinstance(v, tuple) and v[0] == "b" else None
                elif kd in ("int", "enum"):
                    s.setint(t, d, v)
                else:
                    t.env[d] = v
                out.append((v, t))
            elif k == "call" and lhs.get("op") in ("()", "[]") or k == "idx":
                a = lhs["a"] if k == "call" else [lhs["b"], lhs["i"]]
                for root, key, i, t in s.elemkey(lhs, a[0], a[1:], st):
                    u = t.copy()
                    for q in [q for q in u.cache if q.startswith(root)]:
                        del u.cache[q]
                    u.cache[key] = v if isinstance(v, str) else "num"
                    if v in ("nan", "nani", "inf", "infi"):
                        u.wn = u.wn | {root}
                        u.picked = False
                    out.append((v, u))
            else:
                out.append((v, st))
        return out

    # ---- calls
    def call(s, x, st):
        q = s.fn(x)
        n = q["n"] if q else ""
        a = x.get("a") or []
        op = x.get("op")
        rt = s.kind(x["t"]) if "t" in x else ""
        if op in ("=",) or op and op.endswith("=") and op not in CMP:
            return s.binary(x, op, a[0], a[1], st)
        if op in CMP + ARITH and len(a) == 2:
            return s.binary(x, op, a[0], a[1], st)
        if op == "-" and len(a) == 1:
            return s.ev(a[0], st)
        if op in ("()", "[]") and a and rt == "flt":
            vs = s.ev(a[0], st)
            if not any(isinstance(v, tuple) and v[0] == "l" for v, _ in vs) and not (q and q.get("body") is not None and "operator" in q["n"] and s.isfunctor(q)):
                return s.read(x, a[0], a[1:], st)
        cur = [([], st)]
        lam = None
        for y in a:
            cur = [(l + [v], u) for l, t in cur for v, u in s.ev(y, t)]
        out = []
        for l, t in cur:
            out += s.apply(x, q, n, rt, a, l, t)
        return out

    def isfunctor(s, q):
        """operator() whose parameters are floating-point values, not indices"""
        return bool(q["params"]) and all(s.kind(p["t"]) == "flt" for p in q["params"])

    def apply(s, x, q, n, rt, a, l, t):
        fl = s.P.file(q) if q else ""
        v0 = l[0] if l else None
        if n in ("isnan", "isinf") and len(l) == 1 and isinstance(v0, str):
            if n == "isnan":
                return [(("b", v0 in ("nan", "nani")), t)]
            if v0 in ("inf", "infi"):
                return [(("b", True), t)]
            if v0 in ("nan",):
                return [(("b", False), t)]
            return [(("b", False) if s.poison == "inf" else None, t)]
        if n == "real" and len(l) == 1:
            return [("num" if v0 in ("nani", "infi") else v0, t)]
        if n == "imag" and len(l) == 1:
            return [({"nani": "nan", "infi": "inf"}.get(v0, v0), t)]
        if n == "conj" and len(l) == 1:
            return [(v0, t)]
        if n in KEEP and l and all(isinstance(v, str) or v is None or v[0] == "t" for v in l):
            r = s.fold(l)
            return [({"nani": "nan", "infi": "inf"}.get(r, r), t)]
        if n in ("max", "min", "fmax", "fmin") and len(l) == 2 and rt == "flt":
            v, w = l
            if n[0] == "f":
                return [(v if w == "nan" else w if v == "nan" else s.fold(l), t)]
            if "nan" in l:
                return [(v, t)]
            return [(s.fold(l), t)]
        if q is not None and q.get("body") is not None and "tlapack/" in fl and s.depth < 6 and not q.get("ctor") and s.worth(q, l, fl):
            return s.inline(q, a, l, t)
        if rt == "flt":
            return [(s.fold(l), t)]
        vs = [v for v in l if s.isview(v)]
        if rt == "rec" and vs and n in ("slice", "rows", "cols", "row", "col", "diag", "reshape", "transpose_view", "legacy_matrix", "legacy_vector"):
            v = vs[0]
            return [(("v", v[1], "%s.%s(%s)" % (v[2], n, ",".join(s.text(w) for w in l[1:]))), t)]
        if rt == "int" and vs and n in ("nrows", "ncols", "size"):
            return [(("t", "%s(%s%s)" % (n, vs[0][1], vs[0][2])), t)]
        if rt == "int" and l and n in ("min", "max") and all(isinstance(v, tuple) for v in l):
            return [(("t", "%s(%s)" % (n, ",".join(s.text(v) for v in l))), t)]
        if any(isinstance(v, str) and v != "num" for v in l) and rt not in ("bool", "flt"):
            # a poisoned value goes somewhere that is not followed
            if any(s.kind(p["t"]) == "flt" for p in (q or {}).get("params", [])) and rt == "void":
                raise Undecided("call of %s" % n)
        return [(None, t)]

    def worth(s, q, l, fl):
        if "/plugins/" in fl or "LegacyMatrix" in fl or "LegacyVector" in fl or "/base/" in fl and q["n"] not in ("lassq",):
            return False
        return any(isinstance(v, str) or s.isview(v) or isinstance(v, tuple) and v[0] == "l" for v in l)

    def inline(s, q, a, l, t):
        t = t.copy()
        mine = set()
        pars = q["params"]
        if len(l) == len(pars) + 1:
            l, a = l[1:], a[1:]
        for p, v, y in zip(pars, l, a):
            d = p.get("d")
            if d is None:
                continue
            mine.add(d)
            y0 = y
            while isinstance(y0, dict) and y0.get("k") in CAST:
                y0 = y0["e"]
            kd = s.kind(p["t"])
            if isinstance(y0, dict) and y0.get("k") == "ref" and kd in ("flt", "int", "bool") and s.isref(p["t"]):
                r = t.env.get(y0["d"])
                t.env[d] = r if isinstance(r, tuple) and r[0] == "r" else ("r", y0["d"])
                if y0["d"] not in t.env:
                    t.env[y0["d"]] = v if v is not None else ("t", "#%s#" % y0["d"])
            elif kd in ("int", "enum"):
                if v is None:
                    s.setint(t, d, None)
                else:
                    t.env[d] = v
            else:
                t.env[d] = v
        s.depth += 1
        try:
            r = s.ex(q["body"], [t])
        finally:
            s.depth -= 1
        out = []
        for v, u in r["ret"] + [(None, u) for u in r["fall"]]:
            u = u.copy()
            # locals of the callee are dropped
            for d in s.locals(q) | mine:
                u.env.pop(d, None)
                m = "#%s#" % d
                for k in [k for k in u.cache if m in k]:
                    del u.cache[k]
                pi = {z for z in u.pidx if m not in z}
                if isinstance(v, tuple) and v[0] == "t" and v[1] in u.pidx and m in v[1]:
                    pi.add("ret")
                    v = ("t", "ret")
                u.pidx = frozenset(pi)
            out.append((v, u))
        return uniq(out)

    def isref(s, t):
        return s.P.types[t]["k"] in ("ref", "rref")

    def locals(s, q):
        if not hasattr(s, "_loc"):
            s._loc = {}
        i = id(q)
        if i not in s._loc:
            s._loc[i] = {v["d"] for b in walk(q["body"]) if b.get("k") == "decl" for v in b.get("v") or [] if isinstance(v, dict) and "d" in v} | \
                        {w["d"] for b in walk(q["body"]) if b.get("k") == "decl" for v in b.get("v") or [] if isinstance(v, dict) for w in v.get("b") or [] if isinstance(w, dict) and "d" in w}
        return s._loc[i]

    # ---- statements
    def ex(s, x, sts):
        """{'fall': states, 'ret': [(v, state)], 'brk': states, 'cont': states}"""
        R = {"fall": uniq(sts), "ret": [], "brk": [], "cont": []}
        if x is None or not sts:
            return R
        if isinstance(x, list):
            for y in x:
                r = s.ex(y, R["fall"])
                R["fall"] = r["fall"]
                for q in ("ret", "brk", "cont"):
                    R[q] += r[q]
                if not R["fall"]:
                    break
            return R
        k = x.get("k")
        if k == "block":
            return s.ex(x.get("b"), sts)
        if k == "decl":
            cur = R["fall"]
            for v in x.get("v") or []:
                cur = uniq([t for st in cur for t in s.declare(v, st)])
            R["fall"] = cur
            return R
        if k == "expr":
            R["fall"] = uniq([t for st in R["fall"] for v, t in s.ev(x["e"], st) if not s.throws(x["e"])])
            return R
        if k == "if":
            T, F = [], []
            for st in R["fall"]:
                for v, t in s.ev(x["c"], st):
                    for br in s.branches(v):
                        (T if br else F).append(t)
            a, b = s.ex(x.get("t"), uniq(T)), s.ex(x.get("f"), uniq(F))
            return {q: (uniq(a[q] + b[q]) if q == "fall" else a[q] + b[q]) for q in R}
        if k == "ret":
            out = []
            for st in R["fall"]:
                out += s.ev(x["e"], st) if x.get("e") is not None else [(None, st)]
            R["ret"] = uniq(out)
            R["fall"] = []
            return R
        if k == "break":
            R["brk"], R["fall"] = R["fall"], []
            return R
        if k == "continue":
            R["cont"], R["fall"] = R["fall"], []
            return R
        if k == "throw":
            R["fall"] = []
            return R
        if k in ("for", "while", "do"):
            return s.loop(x, R["fall"], k)
        if k == "try":
            return s.ex(x.get("b"), sts)
        if k == "null" or k == "empty":
            return R
        if k in ("switch", "rangefor", "case", "default", "goto", "label"):
            raise Undecided("statement " + k)
        return R

    def throws(s, e):
        return isinstance(e, dict) and e.get("k") == "throw"

    def declare(s, v, st):
        if not isinstance(v, dict):
            return [st]
        if v.get("k") == "decomp" or isinstance(v.get("b"), list):
            out = []
            for w, t in s.ev(v.get("init"), st):
                t = t.copy()
                for b in v.get("b") or []:
                    if isinstance(b, dict) and "d" in b:
                        t.env[b["d"]] = ("v", "w%s;" % b["d"], "") if not (s.isview(w) and not w[1].startswith("w")) else ("v", w[1], "?%s" % b["d"])
                out.append(t)
            return out
        if "d" not in v:
            return [st]
        d = v["d"]
        kd = s.kind(v["t"]) if "t" in v else ""
        out = []
        for w, t in s.ev(v.get("init"), st):
            t = t.copy()
            if kd == "flt":
                t.env[d] = w if isinstance(w, str) else "num"
            elif kd in ("int", "enum"):
                s.setint(t, d, w)
            elif kd == "bool":
                t.env[d] = w if isinstance(w, tuple) and w[0] == "b" else None
            elif s.isview(w) or isinstance(w, tuple) and w[0] in "lp":
                t.env[d] = w
            else:
                t.env[d] = ("v", "w%s;" % d, "")
            out.append(t)
        return out

    def loop(s, x, sts, k):
        R = {"fall": [], "ret": [], "brk": [], "cont": []}
        s.nest = s.nest + ("n%s" % x.get("l"),)
        try:
            if k == "for":
                sts = s.ex(x.get("init"), sts)["fall"] if x.get("init") else sts
            visited = {}
            work = list(sts)
            first = k == "do"
            while work:
                nxt = []
                for st in work:
                    kk = (st.key(), first)
                    if kk in visited:
                        continue
                    visited[kk] = 1
                    if len(visited) > 4000:
                        raise Undecided("loop states")
                    if first or x.get("c") is None:
                        ent = [(True, st)]
                    else:
                        ent = [(br, t) for v, t in s.ev(x["c"], st) for br in s.branches(v)]
                    for br, t in ent:
                        if not br:
                            R["fall"].append(t)
                            continue
                        r = s.ex(x.get("b"), [t])
                        R["ret"] += r["ret"]
                        R["fall"] += r["brk"]
                        for u in r["fall"] + r["cont"]:
                            nxt += [z for _, z in s.ev(x["inc"], u)] if k == "for" and x.get("inc") is not None else [u]
                first = False
                work = uniq(nxt)
            R["fall"] = uniq(R["fall"])
            R["ret"] = uniq(R["ret"])
            return R
        finally:
            s.nest = s.nest[:-1]
