"""C12 no silent loss of precision: type-and-effect scan of every library
function instantiated for an extended-precision scalar.  A value of a narrower
floating type may appear only as an exactly representable constant, or inside an
integer-valued tuning heuristic (integer in, converted back to integer)."""
from fractions import Fraction
from common import *

LEVEL = "other"
# random number generators: the documented result is a draw from a distribution,
# produced by std::mt19937 in double precision, not a computation on the input
EXEMPT = {"tlapack::larnv", "tlapack::legacy::larnv"}


def constval(x):
    """exact rational value of a constant expression, or None"""
    k = x["k"]
    if k == "c":
        try:
            return Fraction(int(x["v"]))
        except Exception:
            return None
    if k == "f":
        if not x.get("exact"):
            return None
        try:
            return Fraction(x["v"])
        except Exception:
            return None
    if k == "un" and x["op"] in "+-":
        v = constval(x["e"])
        return v if v is None or x["op"] == "+" else -v
    if k == "bin" and x["op"] in "+-*/":
        a, b = constval(x["a"]), constval(x["b"])
        if a is None or b is None or (x["op"] == "/" and b == 0):
            return None
        return {"+": a + b, "-": a - b, "*": a * b, "/": a / b if b else None}[x["op"]]
    if k == "cast":
        return constval(x["e"])
    return None


def exact24(v):
    """exactly representable with few bits (11: the narrowest supported type)"""
    if v is None:
        return False
    if v == 0:
        return True
    d = v.denominator
    if d & (d - 1):
        return False
    n = abs(v.numerator)
    while n % 2 == 0:
        n //= 2
    return n.bit_length() <= 24


def scan(ck, path, wide, st):
    d = load(path)
    T = d["types"]
    files = d["files"]
    mant = {}

    def tm(i):
        """narrowest floating significand occurring in a type, 0 if none"""
        if i in mant:
            return mant[i]
        mant[i] = 0
        t = T[i]
        k = t["k"]
        r = 0
        if k == "float":
            r = t["mant"]
        elif k in ("ref", "rref", "ptr", "arr"):
            r = tm(t["e"]) if isinstance(t.get("e"), int) else 0
        elif k == "rec" and t.get("name") in ("std::complex", "std::vector", "std::pair", "std::span", "std::array", "tlapack::LegacyMatrix", "tlapack::LegacyVector"):
            for a in t.get("args", []):
                if isinstance(a, dict) and "t" in a:
                    m = tm(a["t"])
                    if m and (r == 0 or m < r):
                        r = m
        mant[i] = r
        return r

    def low(i):
        m = tm(i)
        return 0 < m < wide
    for fn in d["fns"]:
        if not fn or not fn.get("root"):
            continue
        f = files[fn["file"]]
        if is_driver(f) or "/plugins/" in f:
            continue
        ex = fn["name"] if fn["name"] in EXEMPT else "tlapack::larnv" if f.endswith("/lapack/larnv.hpp") else None
        if ex:
            # the generator itself, its helpers and lambdas
            st.setdefault("exempt", set()).add(ex)
            continue
        st["fns"].add((f, fn["line"], fn["name"]))

        def where(n):
            return "%s:%s (%s)" % (rel(f), n.get("l", fn["line"]), fn["name"])
        for p in fn["params"]:
            if low(p["t"]):
                ck.violation("narrow-parameter", where({}), "parameter '%s' has type %s, narrower than the working type" % (p["n"], T[p["t"]].get("s")))
        if low(fn["ret"]):
            ck.violation("narrow-result", where({}), "returns %s, narrower than the working type" % T[fn["ret"]].get("s"))

        def ty(n):
            t = n.get("t")
            return t if isinstance(t, int) and n["k"] not in ("if",) else None

        def intleaf(n):
            """narrow expression computed from integers only"""
            ok = [True]

            def v(x, par):
                k = x["k"]
                if k == "f" and not x.get("exact"):
                    ok[0] = False
                if k in ("ref", "mem", "idx") and isinstance(x.get("t"), int) and tm(x["t"]):
                    ok[0] = False
                if k == "call":
                    t = x.get("t")
                    if isinstance(t, int) and tm(t) and tm(t) >= wide:
                        ok[0] = False
                if k == "cast" and x["ck"] == "FloatingCast" and tm(x["st"]) >= wide:
                    ok[0] = False
            walk(n, v)
            return ok[0]

        def visit(n, par):
            k = n["k"]
            t = ty(n)
            st["nodes"] += 1
            if k == "decl":
                for v in n["v"]:
                    if isinstance(v.get("t"), int) and low(v["t"]) and v.get("n"):
                        ini = v.get("init")
                        if not (ini and (exact24(constval(ini)) or (intleaf(ini) and False))):
                            ck.violation("narrow-variable", where(v), "variable '%s' has type %s, narrower than the working type" % (v["n"], T[v["t"]].get("s")))
                return True
            if k == "cast" and n["ck"] == "FloatingToIntegral":
                if tm(n["st"]) and low(n["st"]) and intleaf(n["e"]):
                    st["heur"] += 1
                    return False
            if k == "cast" and n["ck"] == "FloatingCast" and tm(n["st"]) and tm(n["t"]):
                st["casts"] += 1
                if tm(n["t"]) < tm(n["st"]):
                    if exact24(constval(n["e"])):
                        return False
                    ck.violation("narrowing-conversion", where(n), "converts %s to %s" % (T[n["st"]].get("s"), T[n["t"]].get("s")))
                    return False
                if low(n["st"]):
                    v = constval(n["e"])
                    if exact24(v):
                        st["lits"] += 1
                        return False
                    ck.violation("narrow-intermediate", where(n), "a %s value that is not an exactly representable constant enters the computation in %s" % (T[n["st"]].get("s"), T[n["t"]].get("s")))
                    return False
            if k == "f":
                st["lits"] += 1
                if not n.get("exact") and not n["v"].upper() in ("INF", "NAN"):
                    ck.violation("inexact-literal", where(n), "literal %s is not exactly representable" % n["v"])
                return True
            if t is not None and low(t) and k in ("call", "ctor", "zero", "new"):
                if not exact24(constval(n)):
                    ck.violation("narrow-intermediate", where(n), "an intermediate value of type %s is narrower than the working type" % T[t].get("s"))
                    return False
            return True
        walk(fn.get("body"), visit)
        for i in fn.get("inits", []):
            walk(i.get("e"), visit)
        st["fnvisits"] += 1


def mixed(ck, st):
    """mixed-precision instantiations of the BLAS: conversions to a narrower type
    happen only when the result is stored into an operand of that type"""
    for scal in ("float,double,long double", ):
        p = export(driver="mixed.cpp", fl=flags(scalar="double"))
        d = load(p)
        T = d["types"]
        files = d["files"]

        def fm(i):
            t = T[i]
            if t["k"] == "float":
                return t["mant"]
            if t["k"] in ("ref", "rref"):
                return fm(t["e"])
            if t["k"] == "rec" and t.get("name") == "std::complex":
                return fm(t["args"][0]["t"])
            return 0
        for fn in d["fns"]:
            if not fn or not fn.get("root") or is_driver(files[fn["file"]]):
                continue
            f = files[fn["file"]]
            if "/plugins/" in f:
                continue
            st["mixed_fns"] += 1

            def visit(n, par):
                if n["k"] in ("cast", "ctor", "call"):
                    src = dst = 0
                    if n["k"] == "cast" and n["ck"] == "FloatingCast":
                        src, dst = fm(n["st"]), fm(n["t"])
                    elif n["k"] == "ctor" and T[n["t"]].get("name") == "std::complex" and len(n["a"]) == 1 and isinstance(n["a"][0].get("t"), int):
                        src, dst = fm(n["a"][0]["t"]), fm(n["t"])
                    if src and dst:
                        st["mixed_casts"] += 1
                        if dst < src:
                            st["narrow"].append((f, n.get("l"), fn["name"], par["k"] + str(par.get("op", ""))))
                return True
            walk(fn.get("body"), visit)


def run(ck):
    st = {"fns": set(), "nodes": 0, "lits": 0, "casts": 0, "heur": 0, "fnvisits": 0}
    specs = [dict(scalar="long double"), dict(scalar="std::complex<long double>"), dict(scalar="long double", driver="legacy.cpp"), dict(scalar="std::complex<long double>", driver="legacy.cpp")]
    if TIER == "thorough":
        specs += [dict(scalar="long double", layout="RowMajor"), dict(scalar="std::complex<long double>", layout="RowMajor")]
    for p in exports(specs):
        scan(ck, p, 64, st)
    ck.floor("functions", len(st["fns"]), 350)
    ck.floor("literals", st["lits"], 40)
    ck.cov.update(explanation="every library function instantiated for long double and complex<long double> is scanned: no parameter, variable, call result or conversion of a narrower floating type, literals exactly representable",
                  functions=len(st["fns"]), instances=st["fnvisits"], syntax_nodes=st["nodes"], literals=st["lits"], floating_conversions=st["casts"], integer_heuristics=st["heur"],
                  samples=[str(x) for x in sorted(st["fns"])[:3]])
    ck.assume += ["long double stands for any type wider than double: the code is generic in the scalar type except for overloads selected by type"]
