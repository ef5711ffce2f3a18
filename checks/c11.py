"""C11 sub-views address exactly the documented elements: accessors,
constructors, slices, rows, columns, diagonals, transposes, reshapes and array
creation are evaluated symbolically and the composed element address is compared
with the documented one as a polynomial in sizes, leading dimension, increment
and indices."""
from common import *
from interp import Prog
import symview as SV
from symview import Poly, Ptr, Elem, Cell, Obj, Sc, Undec, ZERO, ONE, witness

LEVEL = "other"
S = Poly.s
NN = {"m", "n", "ld", "inc", "r0", "r1", "c0", "c1", "i", "j", "q", "p", "kl", "ku", "k"}


class V11:
    def __init__(s, ck, P):
        s.ck, s.P = ck, P
        s.obl = s.proved = s.und = 0
        s.bym = {}
        for f in P.fns:
            if f and f.get("rec") is not None:
                s.bym.setdefault((P.base(f["rec"])["s"], f["n"], len(f["params"])), []).append(f)
        s.E = SV.SymEval(P, lambda f: f.get("root"))

    def where(s, f):
        return "%s:%d (%s)" % (rel(s.P.file(f)), f["line"], f["n"])

    def alarm(s, f, rule, msg):
        sig = "%s(%s)" % (f["n"], ", ".join(short(s.P.types[p["t"]]["s"]) for p in f["params"]))
        s.ck.violation(rule, s.where(f), "%s: %s" % (sig, msg), key="%s:%s" % (f["n"], rule))

    # -- objects
    def matrix(s, t, m, n, ptr, ld):
        return Obj(t, {"m": Cell(m), "n": Cell(n), "ptr": Cell(ptr), "ldim": Cell(ld)})

    def vector(s, t, n, ptr, inc):
        return Obj(t, {"n": Cell(n), "ptr": Cell(ptr), "inc": Cell(inc)})

    def kind(s, t):
        b = s.P.base(t)
        if b["k"] != "rec":
            return None
        a = b.get("args", [])
        if b.get("name") == "tlapack::LegacyMatrix":
            return ("M", chr(int(a[2]["v"])))
        if b.get("name") == "tlapack::LegacyVector":
            return ("V", chr(int(a[3]["v"])), "one" if "StrongOne" in s.P.types[a[2]["t"]]["s"] else "inc")
        if b.get("name") == "tlapack::LegacyBandedMatrix":
            return ("B",)
        if b.get("name") in ("std::vector", "std::span"):
            return ("S",)
        return None

    def doc_addr(s, kd, o, *ix):
        """documented element address of an object described by its fields"""
        if kd[0] == "M":
            i, j = ix
            return Ptr(o["ptr"].base, o["ptr"].off + (i + j * o["ldim"] if kd[1] == "C" else i * o["ldim"] + j))
        if kd[0] == "V":
            inc = o["inc"] if kd[2] == "inc" else ONE
            k = ix[0] if kd[1] == "F" else o["n"] - ONE - ix[0]
            return Ptr(o["ptr"].base, o["ptr"].off + k * inc)
        if kd[0] == "S":
            return Ptr(o["#ptr"].base if "#ptr" in o.f else o["#id"], (o["#ptr"].off if "#ptr" in o.f else ZERO) + ix[0])

    # -- obligations
    def same(s, f, path, a, b, rule, what, ranges):
        """a == b on the path, for all points of the ranges"""
        s.obl += 1
        d = path.facts.norm(a - b)
        if not d.t:
            s.proved += 1
            return True
        w = witness(path.facts, ranges, lambda e: d_at(a - b, e) != 0)
        if w:
            s.alarm(f, rule, "%s is %s instead of %s, e.g. for %s" % (what, path.facts.norm(a), path.facts.norm(b), fmt(w, a - b, path)))
            return False
        s.undecided(f, 'comparison of ' + what)
        return True

    def run(s, f, args, this=None, facts=()):
        ps = s.E.paths(f, args, NN, this, facts)
        out = []
        for p in ps:
            if p.out[0] == "undec":
                s.und += 1
                s.notes.append("%s: %s" % (s.where(f), p.out[1]))
            else:
                out.append(p)
        return out

    notes = []

    def undecided(s, f, w):
        s.und += 1
        s.notes.append('%s: %s' % (s.where(f), w))


def d_at(p, e):
    try:
        return p.at(e)
    except KeyError:
        return 0


def fmt(w, p, path):
    ss = p.syms() | path.facts.syms()
    return ", ".join("%s=%d" % (k, v) for k, v in w.items() if k in ss)


def short(t):
    return t.replace("tlapack::", "").replace("unsigned long", "idx").replace("double", "T")


R3 = range(0, 4)


def dims(**kw):
    return kw


def mat_ranges(L, extra=None):
    r = {"m": range(0, 5), "n": range(0, 5), "ld": lambda e: range(e["m"] if L == "C" else e["n"], (e["m"] if L == "C" else e["n"]) + 3)}
    r.update(extra or {})
    return r


def rng(lo, hi, n):
    """sub-range lo..hi of 0..n"""
    return {lo: lambda e: range(0, e[n] + 1), hi: lambda e: range(e[lo], e[n] + 1)}


def views(V):
    P = V.P
    cnt = {}
    for f in P.fns:
        if not f or not f.get("root") or f.get("main") or f.get("rec") is not None or f.get("body") is None:
            continue
        if f["n"] not in ("slice", "rows", "row", "cols", "col", "diag", "transpose_view", "reshape", "legacy_matrix", "legacy_vector", "nrows", "ncols", "size", "lowerband", "upperband"):
            continue
        t0 = f["params"][0]["t"]
        kd = V.kind(t0)
        if kd is None:
            continue
        cnt[f["n"]] = cnt.get(f["n"], 0) + 1
        n = f["n"]
        fixed = {}

        def parent():
            if kd[0] == "M":
                return V.matrix(t0, S("m"), S("n"), Ptr("A"), S("ld"))
            if kd[0] == "V":
                return V.vector(t0, S("n"), Ptr("A"), S("inc") if kd[2] == "inc" else Obj("one"))
            if kd[0] == "B":
                return Obj(t0, {"m": Cell(S("m")), "n": Cell(S("n")), "kl": Cell(S("kl")), "ku": Cell(S("ku")), "ptr": Cell(Ptr("A"))})
            return Obj(t0, {"#size": Cell(S("n")), "#ptr": Cell(Ptr("A"))})

        def pair(a, b):
            return Obj("pair", {"first": Cell(S(a)), "second": Cell(S(b))})
        # parameter values
        isrec = [P.base(p["t"])["k"] == "rec" for p in f["params"]]
        if n in ("slice", "rows", "cols") and kd[0] != "V" and kd[0] != "S":
            if n == "slice":
                rowr, colr = isrec[1], isrec[2]
                args = lambda: [parent(), pair("r0", "r1") if rowr else S("p"), pair("c0", "c1") if colr else S("p")]
            elif n == "rows":
                rowr, colr = True, None
                args = lambda: [parent(), pair("r0", "r1")]
            else:
                rowr, colr = None, True
                args = lambda: [parent(), pair("c0", "c1")]
        elif n == "slice":
            args = lambda: [parent(), pair("r0", "r1")]
        elif n in ("row", "col"):
            args = lambda: [parent(), S("p")]
        elif n == "diag":
            args = lambda: [parent(), S("d")]
        elif n == "reshape":
            args = (lambda: [parent(), S("p"), S("q")]) if len(f["params"]) == 3 else (lambda: [parent(), S("p")])
        else:
            args = lambda: [parent()]
        L = kd[1] if kd[0] == "M" else "C"
        base = mat_ranges(L) if kd[0] == "M" else {"n": range(0, 5), "inc": range(1, 4)} if kd[0] == "V" else {"n": range(0, 5)}
        if kd[0] == "B":
            base = {"m": range(0, 5), "n": range(0, 5), "kl": range(0, 3), "ku": range(0, 3)}
        for p in V.run(f, args):
            if p.out[0] == "throw":
                if n == "reshape":
                    reshape_throw(V, f, p, kd, base, len(f["params"]))
                    continue
                if n in ("slice", "rows", "row", "cols", "col", "diag", "transpose_view"):
                    # the result's constructor rejects a conforming request?
                    V.obl += 1
                    rr = conf_ranges(n, f, isrec, kd, base)
                    w = witness(p.facts, rr, lambda e: True)
                    if w:
                        V.alarm(f, "view-rejected", "a view of an array inside its bounds is refused (%s), e.g. for %s" % (p.out[1], w))
                    continue
                continue
            o = p.out[1]
            if isinstance(o, Cell):
                o = o.v
            if n in ("nrows", "ncols", "size", "lowerband", "upperband"):
                want = {"nrows": S("m"), "ncols": S("n"), "size": S("m") * S("n") if kd[0] in "MB" else S("n"), "lowerband": S("kl"), "upperband": S("ku")}[n]
                if isinstance(o, Poly):
                    V.same(f, p, o, want, "extent", "the " + n + " of the array", base)
                continue
            if n == "reshape":
                reshape(V, f, p, kd, o, base)
                continue
            if n == "legacy_matrix":
                if kd[0] == "M" and isinstance(o, Obj):
                    for fld, want in (("layout", Poly.c(ord(L))), ("m", S("m")), ("n", S("n")), ("ldim", S("ld"))):
                        if fld in o.f and isinstance(o[fld], Poly):
                            V.same(f, p, o[fld], want, "descriptor", "field " + fld, base)
                    if isinstance(o.f.get("ptr", Cell()).v, Ptr):
                        V.same(f, p, o["ptr"].off, ZERO, "descriptor", "the pointer offset", base)
                continue
            if n == "legacy_vector":
                continue
            # the element map
            rk = V.kind(f["ret"])
            if rk is None or not isinstance(o, Obj):
                V.undecided(f, 'result shape')
                continue
            rr = conf_ranges(n, f, isrec, kd, base)
            i, j = S("i"), S("j")
            r0, c0 = S("r0"), S("c0")
            if n == "slice" and kd[0] == "M":
                want = []
                ri = (r0 + i, S("r1") - r0) if rowr else None
                nd = rowr + colr
                src = (r0 + i if rowr else S("p"), (c0 + (j if rowr else i)) if colr else S("p"))
                ext = [S("r1") - r0] * rowr + [S("c1") - c0] * colr
            elif n == "rows":
                src, ext = (r0 + i, j), [S("r1") - r0, S("n")]
            elif n == "cols":
                src, ext = (i, c0 + j), [S("m"), S("c1") - c0]
            elif n == "row":
                src, ext = (S("p"), i), [S("n")]
            elif n == "col":
                src, ext = (i, S("p")), [S("m")]
            elif n == "transpose_view":
                src, ext = (j, i), [S("n"), S("m")]
            elif n == "diag":
                src, ext = None, None
            else:
                src, ext = (r0 + i,), [S("r1") - r0]
            got = view(V, f, p, rk, o)
            if got is None:
                continue
            gext, gaddr = got
            if n == "diag":
                # the sign of d is a path fact
                sg = p.facts.known(S("d"), "<")
                if sg is None:
                    if not any("d" in q.syms() for q, _ in p.facts.l):
                        pass
                    V.undecided(f, 'result shape')
                    continue
                d = S("d")
                src = (i - d, i) if sg else (i, i + d)
                # extent: the number of elements of the diagonal
                V.obl += 1
                w = witness(p.facts, rr, lambda e: d_at(gext[0], e) != max(0, min(e["m"] + min(e["d"], 0), e["n"] - max(e["d"], 0))))
                if w:
                    V.alarm(f, "extent", "diagonal %d of a %d-by-%d matrix gets length %d" % (w["d"], w["m"], w["n"], d_at(gext[0], w)))
                else:
                    V.proved += 1
                ext = gext
            else:
                for a, b, nm in zip(gext, ext, ("first", "second")):
                    V.same(f, p, a, b, "extent", "the %s extent of the view" % nm, rr)
                if len(gext) != len(ext):
                    V.alarm(f, "extent", "the view has %d dimensions instead of %d" % (len(gext), len(ext)))
                    continue
            want = V.doc_addr(kd, parent(), *src)
            rri = dict(rr)
            e0 = ext[0]
            rri["i"] = lambda e, e0=e0: range(0, max(0, d_at(e0, e)))
            if len(ext) > 1:
                e1 = ext[1]
                rri["j"] = lambda e, e1=e1: range(0, max(0, d_at(e1, e)))
            for g in gaddr:
                if g.base != want.base:
                    V.alarm(f, "address", "the view refers to another array")
                    continue
                V.same(f, p, g.off, want.off, "address", "the address of element %s of the view" % ("(i,j)" if len(ext) > 1 else "i"), rri)
    return cnt


def conf_ranges(n, f, isrec, kd, base):
    rr = dict(base)
    if n in ("slice", "rows", "cols") and kd[0] == "M":
        rowr = n == "rows" or (n == "slice" and isrec[1])
        colr = n == "cols" or (n == "slice" and isrec[2])
        if rowr:
            rr.update(rng("r0", "r1", "m"))
        if colr:
            rr.update(rng("c0", "c1", "n"))
        if n == "slice" and not rowr:
            rr["p"] = lambda e: range(0, e["m"])
        if n == "slice" and not colr:
            rr["p"] = lambda e: range(0, e["n"])
    elif n == "slice":
        rr.update(rng("r0", "r1", "n"))
    elif n == "row":
        rr["p"] = lambda e: range(0, e["m"])
    elif n == "col":
        rr["p"] = lambda e: range(0, e["n"])
    elif n == "diag":
        rr["d"] = lambda e: range(-(e["m"] - 1) if e["m"] else 0, max(e["n"], 1))
    return rr


def fields(kd):
    return ("m", "n", "ptr", "ldim") if kd[0] == "M" else ("n", "ptr", "inc")


def view(V, f, p, rk, o):
    """extents and element addresses of a returned view, by its own accessors"""
    if rk[0] == "S":
        return [o["#size"]], [V.doc_addr(rk, o, S("i"))]
    if any(k not in o.f for k in fields(rk)):
        V.undecided(f, 'result shape')
        return None
    ext = [o["m"], o["n"]] if rk[0] == "M" else [o["n"]]
    if not all(isinstance(e, Poly) for e in ext) or not isinstance(o["ptr"], Ptr):
        V.undecided(f, 'result shape')
        return None
    out = []
    inc = o.f.get("inc", Cell()).v
    if rk[0] == "V" and rk[2] == "inc" and not isinstance(inc, Poly):
        V.undecided(f, 'result shape')
        return None
    return ext, [V.doc_addr(rk, o, *([S("i"), S("j")] if rk[0] == "M" else [S("i")]))]


def reshape_ranges(kd, base, nreq):
    rr = dict(base)
    rr["p"] = range(0, 6)
    if nreq == 3:
        rr["q"] = range(0, 6)
    return rr


def reshape_throw(V, f, p, kd, base, nreq):
    """a refusal is right only if the request does not fit (size, or
    non-contiguous storage with another leading extent)"""
    V.obl += 1

    def bad(e):
        new = e["p"] * (e["q"] if nreq == 3 else 1)
        sz = e["m"] * e["n"] if kd[0] == "M" else e["n"]
        if new > sz:
            return False
        if kd[0] == "M":
            ld = e["ld"]
            lead, oth = (e["m"], e["n"]) if kd[1] == "C" else (e["n"], e["m"])
            if sz <= 1 or ld == lead or oth <= 1 or new == 0:
                return True
            return e["p"] == e["m"] or e["p"] == e["n"] if nreq == 2 else e["p"] == e["m"] or e["q"] == e["n"]
        if nreq == 3:
            inc = e["inc"] if kd[2] == "inc" else 1
            return inc == 1 or e["n"] <= 1 or e["p"] <= 1
        return True
    w = witness(p.facts, reshape_ranges(kd, base, nreq), bad)
    if w:
        V.alarm(f, "view-rejected", "a reshape that fits is refused, e.g. for %s" % w)


def reshape(V, f, p, kd, o, base):
    nreq = len(f["params"])
    if not isinstance(o, Obj) or set(o.f) != {"first", "second"}:
        V.undecided(f, 'result shape')
        return
    b = V.P.base(f["ret"])
    tts = [a.get("t") for a in b.get("args", [])]
    ks = [V.kind(t) for t in tts]
    a, c = o["first"], o["second"]
    if None in ks or not isinstance(a, Obj) or not isinstance(c, Obj):
        V.undecided(f, 'result shape')
        return
    ga, gc = view(V, f, p, ks[0], a), view(V, f, p, ks[1], c)
    if ga is None or gc is None:
        return
    rr = reshape_ranges(kd, base, nreq)
    for g, want, nm in zip(ga[0], [S("p"), S("q")], ("first", "second")):
        V.same(f, p, g, want, "extent", "the %s extent of the reshaped part" % nm, rr)
    if V.kind(f["params"][0]["t"])[0] == "M":
        tot = S("m") * S("n")
    else:
        tot = S("n")
    size = lambda g: g[0][0] * g[0][1] if len(g[0]) == 2 else g[0][0]
    V.same(f, p, size(ga) + size(gc), tot, "extent", "the number of elements of the two parts", rr)
    # disjoint and inside: every address of the parts is an element of the
    # parent, none is named twice
    V.obl += 1

    def addrs(g, e):
        r = []
        if len(g[0]) == 2:
            for i in range(d_at(g[0][0], e)):
                for j in range(d_at(g[0][1], e)):
                    r.append(d_at(g[1][0].off, {**e, "i": i, "j": j}))
        else:
            for i in range(d_at(g[0][0], e)):
                r.append(d_at(g[1][0].off, {**e, "i": i}))
        return r

    def bad(e):
        if kd[0] == "M":
            par = {i + j * e["ld"] if kd[1] == "C" else i * e["ld"] + j for i in range(e["m"]) for j in range(e["n"])}
        else:
            par = {i * (e["inc"] if kd[2] == "inc" else 1) for i in range(e["n"])}
        x = addrs(ga, e) + addrs(gc, e)
        return len(x) != len(set(x)) or not set(x) <= par
    w = witness(p.facts, rr, bad)
    if w:
        V.alarm(f, "reshape-parts", "the two parts overlap or leave the parent, e.g. for %s" % w)
    else:
        V.proved += 1


def members(V):
    """accessors, constructors, array creation"""
    P = V.P
    cnt = {"access": 0, "ctor": 0, "create": 0}
    for f in P.fns:
        if not f or not f.get("root") or f.get("rec") is None:
            continue
        rb = P.base(f["rec"])
        kd = V.kind(f["rec"])
        if kd is not None and f["n"] in ("operator()", "operator[]") and f.get("body"):
            cnt["access"] += 1
            if kd[0] == "M":
                o = lambda: V.matrix(f["rec"], S("m"), S("n"), Ptr("A"), S("ld"))
                ix = [S("i"), S("j")]
                rr = mat_ranges(kd[1], {"i": lambda e: range(e["m"]), "j": lambda e: range(e["n"])})
            elif kd[0] == "V":
                o = lambda: V.vector(f["rec"], S("n"), Ptr("A"), S("inc") if kd[2] == "inc" else Obj("one"))
                ix = [S("i")]
                rr = {"n": range(0, 5), "inc": range(1, 4), "i": lambda e: range(e["n"])}
            elif kd[0] == "B":
                o = lambda: Obj(f["rec"], {"m": Cell(S("m")), "n": Cell(S("n")), "kl": Cell(S("kl")), "ku": Cell(S("ku")), "ptr": Cell(Ptr("A"))})
                ix = [S("i"), S("j")]
                rr = {"m": range(1, 5), "n": range(1, 5), "kl": range(0, 3), "ku": range(0, 3), "j": lambda e: range(e["n"]),
                      "i": lambda e: range(max(0, e["j"] - e["ku"]), min(e["m"], e["j"] + e["kl"] + 1))}
            else:
                continue
            for p in V.run(f, list(ix), o):
                if p.out[0] == "throw":
                    V.obl += 1
                    w = witness(p.facts, rr, lambda e: True)
                    if w:
                        V.alarm(f, "view-rejected", "access to an element of the array throws, e.g. %s" % w)
                    continue
                g = p.out[1]
                if not isinstance(g, (Elem, Ptr)):
                    V.undecided(f, 'result shape')
                    continue
                if kd[0] == "B":
                    want = Ptr("A", S("ku") + S("i") - S("j") + S("j") * (S("ku") + S("kl") + ONE))
                else:
                    want = V.doc_addr(kd, o(), *ix)
                V.same(f, p, g.off, want.off, "address", "the address of element %s" % ("(i,j)" if len(ix) > 1 else "i"), rr)
        elif kd is not None and f.get("ctor") and f.get("inits"):
            cnt["ctor"] += 1
            names = [p_["n"] for p_ in f["params"]]
            pt = [P.base(p_["t"]) for p_ in f["params"]]
            if kd[0] == "M" and len(names) in (3, 4):
                vals = [S("m"), S("n"), Ptr("A"), S("ld")][:len(names)]
                want = {"m": S("m"), "n": S("n"), "ldim": S("ld") if len(names) == 4 else S("m") if kd[1] == "C" else S("n")}
                rr = mat_ranges(kd[1])
            elif kd[0] == "V" and len(names) == 3:
                vals = [S("n"), Ptr("A"), S("inc") if kd[2] == "inc" else Obj("one")]
                want = {"n": S("n")}
                if kd[2] == "inc":
                    want["inc"] = S("inc")
                rr = {"n": range(0, 5), "inc": range(1, 4)}
            elif kd[0] == "B" and len(names) == 5:
                vals = [S("m"), S("n"), S("kl"), S("ku"), Ptr("A")]
                want = {"m": S("m"), "n": S("n"), "kl": S("kl"), "ku": S("ku")}
                rr = {"m": range(1, 5), "n": range(1, 5), "kl": lambda e: range(e["m"]), "ku": lambda e: range(e["n"])}
            else:
                continue
            objs = []

            def this():
                objs.append(Obj(f["rec"]))
                return objs[-1]
            k = 0
            for p in V.run(f, vals, this):
                o = objs[k] if k < len(objs) else None
                k += 1
                if p.out[0] == "throw":
                    V.obl += 1
                    w = witness(p.facts, rr, lambda e: True)
                    if w:
                        V.alarm(f, "view-rejected", "a conforming array description is refused, e.g. %s" % w)
                    continue
                for fld, wv in want.items():
                    g = o.f.get(fld)
                    if g is None or not isinstance(g.v, Poly):
                        V.undecided(f, 'result shape')
                        continue
                    V.same(f, p, g.v, wv, "descriptor", "field " + fld + " after construction", rr)
                g = o.f.get("ptr")
                if g is not None and isinstance(g.v, Ptr):
                    V.same(f, p, g.v.off, ZERO, "descriptor", "the pointer after construction", rr)
            if kd[0] == "M" and len(names) == 4:
                # a leading dimension below the leading extent is refused
                V.obl += 1
                for p in V.run(f, vals, lambda: Obj(f["rec"])):
                    if p.out[0] != "throw":
                        lead = "m" if kd[1] == "C" else "n"
                        w = witness(p.facts, {"m": range(0, 5), "n": range(0, 5), "ld": range(0, 5)}, lambda e: e["ld"] < e[lead])
                        if w:
                            V.alarm(f, "descriptor", "a leading dimension smaller than the leading extent is accepted, e.g. %s" % w)
        elif rb.get("name") in ("tlapack::traits::CreateFunctor", "tlapack::traits::CreateStaticFunctor") and f["n"] == "operator()" and f.get("body"):
            cnt["create"] += 1
            static = "Static" in rb["name"]
            if static:
                dv = [int(a["v"]) for a in rb["args"][1:3] if "v" in a]
                vals = lambda: [Ptr("A")]
                want = [Poly.c(d) for d in dv if d >= 0]
            else:
                k = len(f["params"]) - 1
                vals = lambda: [Obj("vec", {"#size": Cell(ZERO), "#id": Cell("A")})] + [S("m"), S("n")][:k]
                want = [S("m"), S("n")][:k]
            vec = []

            def mk():
                v = vals()
                vec.append(v[0])
                return v
            i = 0
            for p in V.run(f, mk):
                v0 = vec[i] if i < len(vec) else None
                i += 1
                if p.out[0] != "ret" or not isinstance(p.out[1], Obj):
                    V.undecided(f, 'result shape')
                    continue
                o = p.out[1]
                rk = V.kind(f["ret"])
                if rk is None:
                    V.undecided(f, 'result shape')
                    continue
                g = view(V, f, p, rk, o)
                if g is None:
                    continue
                rr = {"m": range(0, 5), "n": range(0, 5)}
                for a, b in zip(g[0], want):
                    V.same(f, p, a, b, "extent", "an extent of the created array", rr)
                cap = v0["#size"] if not static else None
                if static:
                    cap = ONE
                    for d in want:
                        cap = cap * d
                V.obl += 1
                rri = dict(rr)
                rri["i"] = lambda e: range(max(0, d_at(g[0][0], e)))
                if len(g[0]) > 1:
                    rri["j"] = lambda e: range(max(0, d_at(g[0][1], e)))
                addr = g[1][0].off
                if isinstance(cap, Poly):
                    w = witness(p.facts, rri, lambda e: not (0 <= d_at(addr, e) < d_at(cap, e)))
                    if w:
                        V.alarm(f, "create", "the created array does not fit the allocated storage of %s elements, e.g. for %s" % (cap, w))
                    else:
                        V.proved += 1
    return cnt


def run(ck):
    und = obl = prov = 0
    notes = []
    inst = {}
    for P in load_views():
        V = V11(ck, P)
        V.notes = notes
        for c in (views(V), members(V)):
            for k, v in c.items():
                inst[k] = inst.get(k, 0) + v
        und += V.und
        obl += V.obl
        prov += V.proved
    ck.cov = {"functions": inst, "obligations": obl, "proved_as_identity": prov, "undecided": und, "notes": sorted(set(notes))[:20]}
    for k, lo in (("slice", 15), ("rows", 4), ("row", 4), ("cols", 4), ("col", 4), ("diag", 4), ("transpose_view", 4), ("reshape", 8), ("access", 20), ("ctor", 10), ("create", 6)):
        if inst.get(k, 0) < lo // 3:
            raise Broken("only %d instances of %s" % (inst.get(k, 0), k))
    ck.assume += ["sub-view requests lie inside the parent (the documented requirement)", "increments are positive, as the types require",
                  "addresses are compared as integers: wrap-around of the unsigned types is not modelled"]


def load_views():
    return [Prog(p) for p in exports([dict(driver="views.cpp", scalar="double"), dict(driver="views.cpp", scalar="std::complex<double>")])]


